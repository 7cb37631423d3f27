From df2e1609f976014bf229f4218cf2e473b4aa7d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:09 +0000
Subject: [PATCH 01/34] fix: manual_reset_event (futex): waiting until a time
 point of a non-system clock did not compile

The chrono_time_point overload passed an internal unit to the public
timed_wait(), which accepts user-level units only.
---
 include/boost/sync/detail/events/manual_reset_event_futex.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/sync/detail/events/manual_reset_event_futex.hpp b/include/boost/sync/detail/events/manual_reset_event_futex.hpp
index cb8b5c6..362a7d2 100644
--- a/include/boost/sync/detail/events/manual_reset_event_futex.hpp
+++ b/include/boost/sync/detail/events/manual_reset_event_futex.hpp
@@ -193,7 +193,7 @@ private:
         time_point now = clock::now();
         do
         {
-            if (timed_wait(sync::detail::time_traits< duration >::to_sync_unit(t.get() - now)))
+            if (priv_timed_wait(sync::detail::time_traits< duration >::to_sync_unit(t.get() - now)))
                 return true;
             now = clock::now();
         }
-- 
2.43.0


From 6249772195246977440947790edcf0d940cf9062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:49:54 +0000
Subject: [PATCH 02/34] fix: events (futex): relative timed waits restarted
 their timeout after every wakeup

An interrupted wait, or one whose post was consumed (or event was reset) by
another thread, went back to sleep for the whole duration, so the wait could
last arbitrarily longer than requested. Convert to a deadline once.
---
 .../detail/events/auto_reset_event_futex.hpp  | 49 ++-----------------
 .../events/manual_reset_event_futex.hpp       | 36 ++------------
 2 files changed, 7 insertions(+), 78 deletions(-)

diff --git a/include/boost/sync/detail/events/auto_reset_event_futex.hpp b/include/boost/sync/detail/events/auto_reset_event_futex.hpp
index 1ca2db1..4813abc 100644
--- a/include/boost/sync/detail/events/auto_reset_event_futex.hpp
+++ b/include/boost/sync/detail/events/auto_reset_event_futex.hpp
@@ -223,54 +223,11 @@ private:
         if (this->try_wait())
             return true;
 
-        sync::detail::system_duration::native_type time_left = dur.get();
-        if (time_left <= 0)
+        if (dur.get() <= 0)
             return false;
 
-        // Add one waiter
-        unsigned int old_state = m_state.fetch_add(1, detail::atomic_ns::memory_order_relaxed);
-        while (true)
-        {
-            unsigned int posts = old_state >> wait_count_bits;
-            if (posts == 0)
-            {
-                ++old_state; // account for the waiter added above
-
-                while (true)
-                {
-                    const int status = sync::detail::linux_::futex_timedwait(reinterpret_cast< int* >(&m_state), old_state, time_left);
-                    if (status != 0)
-                    {
-                        const int err = errno;
-                        switch (err)
-                        {
-                        case ETIMEDOUT:
-                            return on_wait_timed_out();
-
-                        case EINTR:       // signal received
-                        case EWOULDBLOCK: // another thread changed the state
-                            break;
-
-                        default:
-                            BOOST_ASSERT(false);
-                        }
-                    }
-
-                    old_state = m_state.load(detail::atomic_ns::memory_order_relaxed);
-                    posts = old_state >> wait_count_bits;
-                    if (BOOST_LIKELY(posts > 0))
-                        break;
-                }
-            }
-
-            // Remove one post and one waiter from the counters
-            if (BOOST_LIKELY(m_state.compare_exchange_weak(old_state, old_state - (post_count_one + 1u), detail::atomic_ns::memory_order_acquire, detail::atomic_ns::memory_order_relaxed)))
-                break;
-
-            detail::pause();
-        }
-
-        return true;
+        // The deadline must not move when the wait is interrupted or another thread consumes the post
+        return priv_timed_wait(sync::detail::system_time_point::now() + dur);
     }
 
     template< typename TimePoint >
diff --git a/include/boost/sync/detail/events/manual_reset_event_futex.hpp b/include/boost/sync/detail/events/manual_reset_event_futex.hpp
index 362a7d2..cb9cc33 100644
--- a/include/boost/sync/detail/events/manual_reset_event_futex.hpp
+++ b/include/boost/sync/detail/events/manual_reset_event_futex.hpp
@@ -149,39 +149,11 @@ private:
         if (this->try_wait())
             return true;
 
-        unsigned int old_state = m_state.add(wait_count_one, boost::memory_order_relaxed);
-        while ((old_state & post_bit) == 0u)
-        {
-            sync::detail::system_duration::native_type time_left = dur.get();
-            if (time_left <= 0)
-            {
-                m_state.opaque_sub(wait_count_one, boost::memory_order_relaxed);
-                return false;
-            }
-
-            // Check that system time resolution is nanoseconds
-            BOOST_STATIC_ASSERT(sync::detail::system_duration::subsecond_fraction == 1000000000u);
-            do
-            {
-                const int status = sync::detail::linux_::futex_timedwait(reinterpret_cast< int* >(&m_state.value()), old_state, time_left);
-                if (status != 0)
-                {
-                    const int err = errno;
-                    if (BOOST_LIKELY(err == ETIMEDOUT))
-                    {
-                        m_state.opaque_sub(wait_count_one, boost::memory_order_relaxed);
-                        return false;
-                    }
-                }
-
-                old_state = m_state.load(boost::memory_order_relaxed);
-            }
-            while ((old_state & post_bit) == 0u);
-        }
+        if (dur.get() <= 0)
+            return false;
 
-        m_state.opaque_sub(wait_count_one, boost::memory_order_acquire);
-
-        return true;
+        // The deadline must not move when the wait is interrupted or the event is reset concurrently
+        return priv_timed_wait(sync::detail::system_time_point::now() + dur);
     }
 
     template< typename TimePoint >
-- 
2.43.0


From 2ef60033000c58cbce4ba3682226526a0f3cf2ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:49:54 +0000
Subject: [PATCH 03/34] fix: auto_reset_event (futex): posting a set event did
 not synchronize with the wait

A release fence that is not followed by a store does not synchronize with
anything, so data written before such a post was not visible to the waiter.
---
 .../boost/sync/detail/events/auto_reset_event_futex.hpp   | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/boost/sync/detail/events/auto_reset_event_futex.hpp b/include/boost/sync/detail/events/auto_reset_event_futex.hpp
index 4813abc..ca241a8 100644
--- a/include/boost/sync/detail/events/auto_reset_event_futex.hpp
+++ b/include/boost/sync/detail/events/auto_reset_event_futex.hpp
@@ -72,8 +72,12 @@ public:
             }
             else
             {
-                detail::atomic_ns::atomic_thread_fence(detail::atomic_ns::memory_order_release);
-                return; // the event is already set (enough times so that all waiters are released and the event is still left signalled)
+                // The event is already set (enough times so that all waiters are released and the event is still left signalled).
+                // Still write the state, so that the operations preceding this post are visible to the thread that consumes the event.
+                if (m_state.compare_exchange_weak(old_state, old_state, detail::atomic_ns::memory_order_release, detail::atomic_ns::memory_order_relaxed))
+                    return;
+
+                detail::pause();
             }
         }
 
-- 
2.43.0


From 6c798449e5011521c50fbe2e06a99835d34445ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:49:54 +0000
Subject: [PATCH 04/34] fix: auto_reset_event (futex): post counter overflowed
 with 1024 pending posts

There can be one pending post for every waiter, so both counters need the same
range. With 10 bits the 1024th pending post reset the counter and all posts
were lost.
---
 include/boost/sync/detail/events/auto_reset_event_futex.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/sync/detail/events/auto_reset_event_futex.hpp b/include/boost/sync/detail/events/auto_reset_event_futex.hpp
index ca241a8..67dea98 100644
--- a/include/boost/sync/detail/events/auto_reset_event_futex.hpp
+++ b/include/boost/sync/detail/events/auto_reset_event_futex.hpp
@@ -44,7 +44,7 @@ private:
     // the correct number of threads blocked on the event in case if multiple concurrent posts are made.
     enum
     {
-        wait_count_bits = 22u,
+        wait_count_bits = 16u,
         post_count_one = 1u << wait_count_bits,
         post_count_mask = 0u - post_count_one,
         wait_count_mask = post_count_one - 1u
-- 
2.43.0


From b803c81bdb21eb36b343d8eff26439e2faa12b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:39 +0000
Subject: [PATCH 05/34] fix: shared_spin_mutex: try_lock_shared failed when
 another reader came or went concurrently

The mutex was not owned exclusively, so the request has to succeed.
---
 .../sync/detail/mutexes/shared_spin_mutex.hpp  | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/include/boost/sync/detail/mutexes/shared_spin_mutex.hpp b/include/boost/sync/detail/mutexes/shared_spin_mutex.hpp
index 87ccfac..bde6daa 100644
--- a/include/boost/sync/detail/mutexes/shared_spin_mutex.hpp
+++ b/include/boost/sync/detail/mutexes/shared_spin_mutex.hpp
@@ -104,15 +104,15 @@ public:
 
     bool try_lock_shared() BOOST_NOEXCEPT
     {
-        /* with the mask, the cas will fail, locked exclusively */
-        uint32_t current_state    = state.load(detail::atomic_ns::memory_order_acquire) & reader_mask;
-        const uint32_t next_state = current_state + 1;
-
-        if ( state.compare_exchange_strong(current_state, next_state, detail::atomic_ns::memory_order_acquire,
-                                           detail::atomic_ns::memory_order_relaxed) )
-            return true;
-        else
-            return false;
+        /* other readers coming and going must not make this fail */
+        uint32_t current_state = state.load(detail::atomic_ns::memory_order_relaxed);
+        while ( current_state != locked_state ) {
+            if ( state.compare_exchange_weak(current_state, current_state + 1, detail::atomic_ns::memory_order_acquire,
+                                             detail::atomic_ns::memory_order_relaxed) )
+                return true;
+            detail::pause();
+        }
+        return false;
     }
 
     void unlock_shared() BOOST_NOEXCEPT
-- 
2.43.0


From b810720539ceb3d95c93f0234c2ea6cf4dedbba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:39 +0000
Subject: [PATCH 06/34] fix: auto_reset_event (semaphore): posting a set event
 did not synchronize with the wait

A release fence that is not followed by a store does not synchronize with
anything, so data written before such a post was not visible to the waiter.
---
 .../events/auto_reset_event_semaphore.hpp     | 22 ++++++++-----------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/include/boost/sync/detail/events/auto_reset_event_semaphore.hpp b/include/boost/sync/detail/events/auto_reset_event_semaphore.hpp
index ec8a449..54e1656 100644
--- a/include/boost/sync/detail/events/auto_reset_event_semaphore.hpp
+++ b/include/boost/sync/detail/events/auto_reset_event_semaphore.hpp
@@ -43,24 +43,20 @@ public:
     void post() BOOST_NOEXCEPT
     {
         int32_t old_state = m_state.load(detail::atomic_ns::memory_order_relaxed);
-        if (old_state >= 0)
+        for (;;)
         {
-            for (;;)
+            // If the event is already set then write the state nonetheless, so that the operations preceding
+            // this post are visible to the thread that consumes the event.
+            const int32_t new_state = old_state >= 0 ? old_state - 1 : old_state;
+            if (m_state.compare_exchange_weak(old_state, new_state, detail::atomic_ns::memory_order_release, detail::atomic_ns::memory_order_relaxed))
             {
-                if (m_state.compare_exchange_weak(old_state, old_state - 1, detail::atomic_ns::memory_order_release, detail::atomic_ns::memory_order_relaxed))
-                {
+                if (old_state >= 0)
                     m_sem.post();
-                    return; // avoid unnecessary fence
-                }
-
-                if (old_state < 0)
-                    break; // someone else has set the auto_reset_event with no waiters
-
-                detail::pause();
+                return;
             }
-        }
 
-        detail::atomic_ns::atomic_thread_fence(detail::atomic_ns::memory_order_release);
+            detail::pause();
+        }
     }
 
     void wait()
-- 
2.43.0


From 47d7fc366bf87b2df2350abc3d51eddac66efece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:39 +0000
Subject: [PATCH 07/34] fix: auto_reset_event (semaphore): failed waits could
 leave extra posts or miss a completed post

Posts made while a failing try_wait/timed_wait was registered as a waiter left
the event set twice, and a failed wait did not notice a completed post whose
semaphore permit was still being added by a concurrent post.
---
 .../events/auto_reset_event_semaphore.hpp     | 31 ++++++++++++++++---
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/include/boost/sync/detail/events/auto_reset_event_semaphore.hpp b/include/boost/sync/detail/events/auto_reset_event_semaphore.hpp
index 54e1656..c46f15a 100644
--- a/include/boost/sync/detail/events/auto_reset_event_semaphore.hpp
+++ b/include/boost/sync/detail/events/auto_reset_event_semaphore.hpp
@@ -73,8 +73,7 @@ public:
         if (wait_successful)
             return true;
 
-        m_state.fetch_add(-1, detail::atomic_ns::memory_order_relaxed);
-        return false;
+        return on_wait_failed();
     }
 
     template< typename Time >
@@ -86,8 +85,7 @@ public:
         if (wait_successful)
             return true;
 
-        m_state.fetch_add(-1, detail::atomic_ns::memory_order_relaxed);
-        return false;
+        return on_wait_failed();
     }
 
     template< typename Duration >
@@ -102,6 +100,31 @@ public:
         return timed_wait(abs_time);
     }
 
+private:
+    //! Unregisters the waiter. If there are enough posts for every registered waiter then takes one of them instead.
+    bool on_wait_failed()
+    {
+        int32_t old_state = m_state.load(detail::atomic_ns::memory_order_relaxed);
+        for (;;)
+        {
+            if (old_state > 0)
+            {
+                if (m_state.compare_exchange_weak(old_state, old_state - 1, detail::atomic_ns::memory_order_relaxed, detail::atomic_ns::memory_order_relaxed))
+                    return false;
+            }
+            else
+            {
+                // A concurrent post() has counted on this waiter. It might not have posted the semaphore yet.
+                if (m_sem.try_wait())
+                    return true;
+
+                old_state = m_state.load(detail::atomic_ns::memory_order_relaxed);
+            }
+
+            detail::pause();
+        }
+    }
+
 private:
     semaphore m_sem;
     detail::atomic_ns::atomic< int32_t > m_state;
-- 
2.43.0


From d31144b1cbc81c4cfde1cf2e53f7e537d2639de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:39 +0000
Subject: [PATCH 08/34] fix: emulated semaphore and events: relative timed
 waits restarted their timeout after every wakeup

Use the predicate wait of condition_variable, which fixes the deadline once.
---
 .../events/auto_reset_event_emulation.hpp     | 20 +++++++++----------
 .../events/manual_reset_event_emulation.hpp   | 20 +++++++++----------
 .../detail/semaphore/semaphore_emulation.hpp  | 20 +++++++++----------
 3 files changed, 30 insertions(+), 30 deletions(-)

diff --git a/include/boost/sync/detail/events/auto_reset_event_emulation.hpp b/include/boost/sync/detail/events/auto_reset_event_emulation.hpp
index 358e368..380b717 100644
--- a/include/boost/sync/detail/events/auto_reset_event_emulation.hpp
+++ b/include/boost/sync/detail/events/auto_reset_event_emulation.hpp
@@ -75,16 +75,8 @@ public:
     typename enable_if_c< sync::detail::time_traits< Time >::is_specialized, bool >::type timed_wait(Time const& timeout)
     {
         sync::unique_lock< sync::mutex > lock(m_mutex);
-        while (!m_is_set)
-        {
-            if (!m_cond.timed_wait(lock, timeout))
-            {
-                if (!m_is_set)
-                    return false;
-                else
-                    break;
-            }
-        }
+        if (!m_cond.timed_wait(lock, timeout, is_set(m_is_set)))
+            return false;
 
         m_is_set = false;
         return true;
@@ -102,6 +94,14 @@ public:
         return timed_wait(abs_time);
     }
 
+private:
+    struct is_set
+    {
+        bool const& m_value;
+        explicit is_set(bool const& value) : m_value(value) {}
+        bool operator() () const { return m_value; }
+    };
+
 private:
     sync::mutex m_mutex;
     sync::condition_variable m_cond;
diff --git a/include/boost/sync/detail/events/manual_reset_event_emulation.hpp b/include/boost/sync/detail/events/manual_reset_event_emulation.hpp
index b6183af..47054ec 100644
--- a/include/boost/sync/detail/events/manual_reset_event_emulation.hpp
+++ b/include/boost/sync/detail/events/manual_reset_event_emulation.hpp
@@ -76,16 +76,8 @@ public:
     typename enable_if_c< sync::detail::time_traits< Time >::is_specialized, bool >::type timed_wait(Time const& timeout)
     {
         sync::unique_lock< sync::mutex > lock(m_mutex);
-        while (!m_is_set)
-        {
-            if (!m_cond.timed_wait(lock, timeout))
-            {
-                if (!m_is_set)
-                    return false;
-                else
-                    break;
-            }
-        }
+        if (!m_cond.timed_wait(lock, timeout, is_set(m_is_set)))
+            return false;
 
         return true;
     }
@@ -102,6 +94,14 @@ public:
         return timed_wait(abs_time);
     }
 
+private:
+    struct is_set
+    {
+        bool const& m_value;
+        explicit is_set(bool const& value) : m_value(value) {}
+        bool operator() () const { return m_value; }
+    };
+
 private:
     sync::mutex m_mutex;
     sync::condition_variable m_cond;
diff --git a/include/boost/sync/detail/semaphore/semaphore_emulation.hpp b/include/boost/sync/detail/semaphore/semaphore_emulation.hpp
index db69570..87f1e41 100644
--- a/include/boost/sync/detail/semaphore/semaphore_emulation.hpp
+++ b/include/boost/sync/detail/semaphore/semaphore_emulation.hpp
@@ -71,16 +71,8 @@ public:
     typename enable_if_c< sync::detail::time_traits< Time >::is_specialized, bool >::type timed_wait(Time const& timeout)
     {
         sync::unique_lock< sync::mutex > lock(m_mutex);
-        while (m_count == 0)
-        {
-            if (!m_cond.timed_wait(lock, timeout))
-            {
-                if (m_count == 0)
-                    return false;
-                else
-                    break;
-            }
-        }
+        if (!m_cond.timed_wait(lock, timeout, is_not_zero(m_count)))
+            return false;
 
         --m_count;
         return true;
@@ -98,6 +90,14 @@ public:
         return timed_wait(abs_time);
     }
 
+private:
+    struct is_not_zero
+    {
+        unsigned int const& m_value;
+        explicit is_not_zero(unsigned int const& value) : m_value(value) {}
+        bool operator() () const { return m_value != 0; }
+    };
+
 private:
     sync::mutex m_mutex;
     sync::condition_variable m_cond;
-- 
2.43.0


From 6c18065f7e83d53b5c488449604d9d8d8ba4cf3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:06 +0000
Subject: [PATCH 09/34] fix: condition_variable_any: relative predicate waits
 restarted their timeout after every wakeup

wait_for and timed_wait with a predicate waited for the whole duration again
after each notification or spurious wakeup, so they could block forever.
---
 .../condition_variable_any_generic.hpp        | 23 +++++++++++--------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/include/boost/sync/detail/condition_variables/condition_variable_any_generic.hpp b/include/boost/sync/detail/condition_variables/condition_variable_any_generic.hpp
index 30fe69e..08bd3ed 100644
--- a/include/boost/sync/detail/condition_variables/condition_variable_any_generic.hpp
+++ b/include/boost/sync/detail/condition_variables/condition_variable_any_generic.hpp
@@ -26,6 +26,7 @@
 #include <boost/sync/mutexes/mutex.hpp>
 #include <boost/sync/condition_variables/condition_variable.hpp>
 #include <boost/sync/condition_variables/cv_status.hpp>
+#include <boost/sync/support/posix_time.hpp>
 #include <boost/sync/detail/header.hpp>
 
 #ifdef BOOST_HAS_PRAGMA_ONCE
@@ -113,9 +114,9 @@ public:
         return m_cond.timed_wait(internal_lock, t);
     }
 
-    template< typename Lock, typename Time, typename Predicate >
-    typename enable_if_c< sync::detail::time_traits< Time >::is_specialized, bool >::type
-    timed_wait(Lock& lock, Time const& t, Predicate pred)
+    template< typename Lock, typename TimePoint, typename Predicate >
+    typename detail::enable_if_tag< TimePoint, detail::time_point_tag, bool >::type
+    timed_wait(Lock& lock, TimePoint const& t, Predicate pred)
     {
         while (!pred())
         {
@@ -125,6 +126,15 @@ public:
         return true;
     }
 
+    template< typename Lock, typename Duration, typename Predicate >
+    typename detail::enable_if_tag< Duration, detail::time_duration_tag, bool >::type
+    timed_wait(Lock& lock, Duration const& t, Predicate pred)
+    {
+        // The deadline must not move with every wakeup
+        const sync::detail::system_time_point abs_timeout = sync::detail::system_time_point::now() + sync::detail::time_traits< Duration >::to_sync_unit(t);
+        return this->timed_wait(lock, abs_timeout.get(), pred);
+    }
+
     template< typename Lock, typename TimePoint >
     typename detail::enable_if_tag< TimePoint, detail::time_point_tag, sync::cv_status >::type
     wait_until(Lock& lock, TimePoint const& abs_time)
@@ -161,12 +171,7 @@ public:
     typename detail::enable_if_tag< Duration, detail::time_duration_tag, bool >::type
     wait_for(Lock& lock, Duration const& rel_time, Predicate pred)
     {
-        while (!pred())
-        {
-            if (this->wait_for(lock, rel_time) != sync::cv_status::no_timeout)
-                return pred();
-        }
-        return true;
+        return this->timed_wait(lock, rel_time, pred);
     }
 
     BOOST_DELETED_FUNCTION(condition_variable_any(condition_variable_any const&))
-- 
2.43.0


From b825273920919bca7a16dedf5c079aa5626492b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:06 +0000
Subject: [PATCH 10/34] fix: auto_reset_event (semaphore): a failing try_wait
 was counted as a waiter

Posts made meanwhile left the event set twice.
---
 .../detail/events/auto_reset_event_semaphore.hpp  | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/include/boost/sync/detail/events/auto_reset_event_semaphore.hpp b/include/boost/sync/detail/events/auto_reset_event_semaphore.hpp
index c46f15a..13346a7 100644
--- a/include/boost/sync/detail/events/auto_reset_event_semaphore.hpp
+++ b/include/boost/sync/detail/events/auto_reset_event_semaphore.hpp
@@ -67,13 +67,18 @@ public:
 
     bool try_wait()
     {
-        m_state.fetch_add(1, detail::atomic_ns::memory_order_acquire);
+        // Don't register as a waiter, otherwise concurrent posts would count on this thread
+        while (!m_sem.try_wait())
+        {
+            if (m_state.load(detail::atomic_ns::memory_order_relaxed) >= 0)
+                return false;
 
-        const bool wait_successful = m_sem.try_wait();
-        if (wait_successful)
-            return true;
+            detail::pause(); // the event is set but the thread that has set or reset it has not finished yet
+        }
 
-        return on_wait_failed();
+        // Remove one post
+        m_state.fetch_add(1, detail::atomic_ns::memory_order_acquire);
+        return true;
     }
 
     template< typename Time >
-- 
2.43.0


From 62b65bf0fc0f01b1d0f283c27aa1fed077f22dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:06 +0000
Subject: [PATCH 11/34] fix: emulated auto_reset_event: a post was lost if the
 previously released thread had not woken up yet

Every post made while threads are blocked has to release one of them, so a
single flag is not enough: count the waiters and the posts.
---
 .../events/auto_reset_event_emulation.hpp     | 38 ++++++++++++-------
 1 file changed, 24 insertions(+), 14 deletions(-)

diff --git a/include/boost/sync/detail/events/auto_reset_event_emulation.hpp b/include/boost/sync/detail/events/auto_reset_event_emulation.hpp
index 380b717..fd7c97b 100644
--- a/include/boost/sync/detail/events/auto_reset_event_emulation.hpp
+++ b/include/boost/sync/detail/events/auto_reset_event_emulation.hpp
@@ -37,17 +37,17 @@ class auto_reset_event
     BOOST_DELETED_FUNCTION(auto_reset_event& operator= (auto_reset_event const&));
 
 public:
-    auto_reset_event() : m_is_set(false)
+    auto_reset_event() : m_waiters(0), m_posts(0)
     {
     }
 
     void post()
     {
         sync::lock_guard< sync::mutex > lock(m_mutex);
-        const bool already_signaled = m_is_set;
-        if (!already_signaled)
+        // There must be a post for every blocked thread, plus one that leaves the event set
+        if (m_posts <= m_waiters)
         {
-            m_is_set = true;
+            ++m_posts;
             m_cond.notify_one();
         }
     }
@@ -56,18 +56,19 @@ public:
     {
         sync::unique_lock< sync::mutex > lock(m_mutex);
 
-        while (!m_is_set)
+        waiter_guard waiter(m_waiters);
+        while (m_posts == 0)
             m_cond.wait(lock);
 
-        m_is_set = false;
+        --m_posts;
     }
 
     bool try_wait()
     {
         sync::lock_guard< sync::mutex > lock(m_mutex);
-        const bool res = m_is_set;
+        const bool res = m_posts > 0;
         if (res)
-            m_is_set = false;
+            --m_posts;
         return res;
     }
 
@@ -75,10 +76,11 @@ public:
     typename enable_if_c< sync::detail::time_traits< Time >::is_specialized, bool >::type timed_wait(Time const& timeout)
     {
         sync::unique_lock< sync::mutex > lock(m_mutex);
-        if (!m_cond.timed_wait(lock, timeout, is_set(m_is_set)))
+        waiter_guard waiter(m_waiters);
+        if (!m_cond.timed_wait(lock, timeout, is_set(m_posts)))
             return false;
 
-        m_is_set = false;
+        --m_posts;
         return true;
     }
 
@@ -97,15 +99,23 @@ public:
 private:
     struct is_set
     {
-        bool const& m_value;
-        explicit is_set(bool const& value) : m_value(value) {}
-        bool operator() () const { return m_value; }
+        unsigned int const& m_value;
+        explicit is_set(unsigned int const& value) : m_value(value) {}
+        bool operator() () const { return m_value > 0; }
+    };
+
+    struct waiter_guard
+    {
+        unsigned int& m_value;
+        explicit waiter_guard(unsigned int& value) : m_value(value) { ++m_value; }
+        ~waiter_guard() { --m_value; }
     };
 
 private:
     sync::mutex m_mutex;
     sync::condition_variable m_cond;
-    bool m_is_set;
+    unsigned int m_waiters;
+    unsigned int m_posts;
 };
 
 } // namespace abi
-- 
2.43.0


From 774c8085db94287fbe4ad056828f58b482ea9257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:53:54 +0000
Subject: [PATCH 12/34] fix: system_time_point: negative durations produced a
 point in the far future

The signed value was divided by an unsigned constant, so a wait for a negative
duration, or until a time point before 1970, blocked for centuries instead of
timing out at once.
---
 include/boost/sync/detail/time_units.hpp | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/include/boost/sync/detail/time_units.hpp b/include/boost/sync/detail/time_units.hpp
index e7fe6fe..584b254 100644
--- a/include/boost/sync/detail/time_units.hpp
+++ b/include/boost/sync/detail/time_units.hpp
@@ -172,8 +172,9 @@ public:
     //! Creates time point from duration since 1970-Jan-01
     explicit system_time_point(system_duration dur) BOOST_NOEXCEPT
     {
-        m_value.tv_sec = static_cast< ::time_t >(dur.get() / subsecond_fraction);
-        m_value.tv_nsec = dur.get() % subsecond_fraction;
+        m_value.tv_sec = 0;
+        m_value.tv_nsec = 0;
+        *this += dur;
     }
 
     native_type const& get() const BOOST_NOEXCEPT { return m_value; }
@@ -195,15 +196,22 @@ public:
 
     system_time_point& operator+= (system_duration const& dur) BOOST_NOEXCEPT
     {
-        int64_t nsec = static_cast< int64_t >(m_value.tv_nsec) + dur.get();
-        int64_t tv_nsec = nsec % system_duration::subsecond_fraction;
+        // Note: the fraction must be signed, otherwise negative durations are converted to unsigned
+        const int64_t fraction = static_cast< int64_t >(system_duration::subsecond_fraction);
+        int64_t tv_sec = dur.get() / fraction;
+        int64_t tv_nsec = static_cast< int64_t >(m_value.tv_nsec) + dur.get() % fraction;
         if (tv_nsec < 0)
         {
-            tv_nsec += subsecond_fraction;
-            --m_value.tv_sec;
+            tv_nsec += fraction;
+            --tv_sec;
+        }
+        else if (tv_nsec >= fraction)
+        {
+            tv_nsec -= fraction;
+            ++tv_sec;
         }
         m_value.tv_nsec = static_cast< long >(tv_nsec);
-        m_value.tv_sec += nsec / system_duration::subsecond_fraction;
+        m_value.tv_sec += tv_sec;
 
         return *this;
     }
-- 
2.43.0


From 11b5661f986878f62cc9e31964df276335e89c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:54:11 +0000
Subject: [PATCH 13/34] fix: time points centuries away were mangled by integer
 overflow

The difference of two time points is saturated, and Boost.DateTime time points
are converted without going through a 64-bit number of nanoseconds. Waiting
until such a point timed out immediately.
---
 include/boost/sync/detail/time_units.hpp       |  8 +++++++-
 include/boost/sync/support/boost_date_time.hpp | 14 +++++++++++++-
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/include/boost/sync/detail/time_units.hpp b/include/boost/sync/detail/time_units.hpp
index 584b254..5bd90f5 100644
--- a/include/boost/sync/detail/time_units.hpp
+++ b/include/boost/sync/detail/time_units.hpp
@@ -235,7 +235,13 @@ public:
     {
         int64_t seconds = static_cast< int64_t >(left.m_value.tv_sec) - static_cast< int64_t >(right.m_value.tv_sec);
         int64_t nseconds = static_cast< int64_t >(left.m_value.tv_nsec) - static_cast< int64_t >(right.m_value.tv_nsec);
-        return system_duration(seconds * system_duration::subsecond_fraction + nseconds);
+        // Saturate if the difference cannot be represented
+        const int64_t max_seconds = static_cast< int64_t >(9223372035ll);
+        if (seconds > max_seconds)
+            seconds = max_seconds;
+        else if (seconds < -max_seconds)
+            seconds = -max_seconds;
+        return system_duration(seconds * static_cast< int64_t >(system_duration::subsecond_fraction) + nseconds);
     }
 };
 
diff --git a/include/boost/sync/support/boost_date_time.hpp b/include/boost/sync/support/boost_date_time.hpp
index 68611aa..5f1634f 100644
--- a/include/boost/sync/support/boost_date_time.hpp
+++ b/include/boost/sync/support/boost_date_time.hpp
@@ -70,7 +70,19 @@ struct time_traits< T, typename T::_is_boost_date_time_time_point >
         typedef typename T::date_type date_type;
         typedef typename T::time_duration_type time_duration_type;
         time_duration_type dur = point - T(date_type(1970, 1, 1));
-        return system_time_point(time_traits< time_duration_type >::to_sync_unit(dur));
+        // Convert seconds and the fraction separately, the total may not be representable as system_duration
+        typedef typename time_duration_type::traits_type traits_type;
+        const int64_t ticks_per_second = static_cast< int64_t >(traits_type::ticks_per_second);
+        int64_t seconds = static_cast< int64_t >(dur.ticks()) / ticks_per_second;
+        int64_t ticks = static_cast< int64_t >(dur.ticks()) % ticks_per_second;
+        if (ticks < 0)
+        {
+            ticks += ticks_per_second;
+            --seconds;
+        }
+        const int64_t fraction = static_cast< int64_t >(system_time_point::subsecond_fraction);
+        return system_time_point(static_cast< time_t >(seconds), static_cast< unsigned int >(
+            ticks_per_second >= fraction ? ticks / (ticks_per_second / fraction) : ticks * (fraction / ticks_per_second)));
     }
 };
 
-- 
2.43.0


From 54da50a3285caa4c73ff8cdb4aacecc1639abdf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:54:11 +0000
Subject: [PATCH 14/34] fix: semaphore, events: waiting until time_point::min()
 of a non-system clock blocked forever

Subtracting the current time overflowed. A point in the past leaves no time to wait.
---
 include/boost/sync/detail/events/auto_reset_event_futex.hpp   | 2 +-
 include/boost/sync/detail/events/manual_reset_event_futex.hpp | 2 +-
 include/boost/sync/detail/semaphore/semaphore_posix.hpp       | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/boost/sync/detail/events/auto_reset_event_futex.hpp b/include/boost/sync/detail/events/auto_reset_event_futex.hpp
index 67dea98..6872895 100644
--- a/include/boost/sync/detail/events/auto_reset_event_futex.hpp
+++ b/include/boost/sync/detail/events/auto_reset_event_futex.hpp
@@ -243,7 +243,7 @@ private:
         time_point now = clock::now();
         do
         {
-            if (priv_timed_wait(sync::detail::time_traits< duration >::to_sync_unit(t.get() - now)))
+            if (priv_timed_wait(sync::detail::time_traits< duration >::to_sync_unit(now < t.get() ? duration(t.get() - now) : duration::zero())))
                 return true;
             now = clock::now();
         }
diff --git a/include/boost/sync/detail/events/manual_reset_event_futex.hpp b/include/boost/sync/detail/events/manual_reset_event_futex.hpp
index cb9cc33..5a71062 100644
--- a/include/boost/sync/detail/events/manual_reset_event_futex.hpp
+++ b/include/boost/sync/detail/events/manual_reset_event_futex.hpp
@@ -165,7 +165,7 @@ private:
         time_point now = clock::now();
         do
         {
-            if (priv_timed_wait(sync::detail::time_traits< duration >::to_sync_unit(t.get() - now)))
+            if (priv_timed_wait(sync::detail::time_traits< duration >::to_sync_unit(now < t.get() ? duration(t.get() - now) : duration::zero())))
                 return true;
             now = clock::now();
         }
diff --git a/include/boost/sync/detail/semaphore/semaphore_posix.hpp b/include/boost/sync/detail/semaphore/semaphore_posix.hpp
index 53b525e..71a4c96 100644
--- a/include/boost/sync/detail/semaphore/semaphore_posix.hpp
+++ b/include/boost/sync/detail/semaphore/semaphore_posix.hpp
@@ -175,7 +175,7 @@ private:
         time_point now = clock::now();
         do
         {
-            if (priv_timed_wait(sync::detail::time_traits< duration >::to_sync_unit(t.get() - now)))
+            if (priv_timed_wait(sync::detail::time_traits< duration >::to_sync_unit(now < t.get() ? duration(t.get() - now) : duration::zero())))
                 return true;
             now = clock::now();
         } while (now < t.get());
-- 
2.43.0


From b90128fb99eb6533132e0a667e9958a5eb25327d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:54:11 +0000
Subject: [PATCH 15/34] fix: semaphore (POSIX): try_wait failed when
 interrupted by a signal although a permit was available

---
 .../sync/detail/semaphore/semaphore_posix.hpp | 29 +++++++++++--------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/include/boost/sync/detail/semaphore/semaphore_posix.hpp b/include/boost/sync/detail/semaphore/semaphore_posix.hpp
index 71a4c96..b662b38 100644
--- a/include/boost/sync/detail/semaphore/semaphore_posix.hpp
+++ b/include/boost/sync/detail/semaphore/semaphore_posix.hpp
@@ -100,20 +100,25 @@ public:
 
     bool try_wait()
     {
-        const int status = sem_trywait(&m_sem);
-        if (status == 0)
-            return true;
-
-        switch (errno)
+        for (;;)
         {
-        case EINTR:
-        case EAGAIN:
-            return false;
+            const int status = sem_trywait(&m_sem);
+            if (status == 0)
+                return true;
 
-        case EINVAL:
-        default:
-            BOOST_ASSERT(false);
-            return false;
+            switch (errno)
+            {
+            case EINTR: // interrupted by a signal handler
+                continue;
+
+            case EAGAIN:
+                return false;
+
+            case EINVAL:
+            default:
+                BOOST_ASSERT(false);
+                return false;
+            }
         }
     }
 
-- 
2.43.0


From ceb95493b0bdf7815dc24127b13f941e8ff81982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:54:25 +0000
Subject: [PATCH 16/34] fix: emulated semaphore: post wrapped the counter
 around instead of reporting the overflow

---
 include/boost/sync/detail/semaphore/semaphore_emulation.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/boost/sync/detail/semaphore/semaphore_emulation.hpp b/include/boost/sync/detail/semaphore/semaphore_emulation.hpp
index 87f1e41..73aa044 100644
--- a/include/boost/sync/detail/semaphore/semaphore_emulation.hpp
+++ b/include/boost/sync/detail/semaphore/semaphore_emulation.hpp
@@ -10,8 +10,12 @@
 #ifndef BOOST_SYNC_DETAIL_SEMAPHORE_SEMAPHORE_EMULATION_HPP_INCLUDED_
 #define BOOST_SYNC_DETAIL_SEMAPHORE_SEMAPHORE_EMULATION_HPP_INCLUDED_
 
+#include <errno.h>
+#include <limits.h>
 #include <boost/core/enable_if.hpp>
 #include <boost/sync/detail/config.hpp>
+#include <boost/sync/exceptions/overflow_error.hpp>
+#include <boost/sync/detail/throw_exception.hpp>
 #include <boost/sync/detail/time_traits.hpp>
 #include <boost/sync/locks/lock_guard.hpp>
 #include <boost/sync/locks/unique_lock.hpp>
@@ -44,6 +48,8 @@ public:
     void post()
     {
         sync::lock_guard< sync::mutex > lock(m_mutex);
+        if (BOOST_UNLIKELY(m_count == UINT_MAX))
+            BOOST_SYNC_DETAIL_THROW(overflow_error, (EOVERFLOW)("semaphore post failed: semaphore counter overflow"));
         ++m_count;
         m_cond.notify_one();
     }
-- 
2.43.0


From 19c0fa2378f327be6b63329300d08a5f3394f700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:54:25 +0000
Subject: [PATCH 17/34] fix: timed_mutex: constructor leaked the native mutex
 if the condition variable could not be created

---
 include/boost/sync/detail/mutexes/timed_mutex_posix.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/boost/sync/detail/mutexes/timed_mutex_posix.hpp b/include/boost/sync/detail/mutexes/timed_mutex_posix.hpp
index 13c0ac4..1c6d9cd 100644
--- a/include/boost/sync/detail/mutexes/timed_mutex_posix.hpp
+++ b/include/boost/sync/detail/mutexes/timed_mutex_posix.hpp
@@ -104,7 +104,10 @@ public:
 #if !defined(BOOST_SYNC_DETAIL_PTHREAD_HAS_TIMEDLOCK)
         res = pthread_cond_init(&m_cond, NULL);
         if (BOOST_UNLIKELY(res != 0))
+        {
+            BOOST_VERIFY(sync::detail::posix::pthread_mutex_destroy(&m_mutex) == 0);
             BOOST_SYNC_DETAIL_THROW(resource_error, (res)("timed_mutex constructor failed in pthread_cond_init"));
+        }
         m_is_locked = false;
 #endif
     }
-- 
2.43.0


From c91d2ef101072732c650809ae909c7262b68804d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:57:54 +0000
Subject: [PATCH 18/34] fix: lock conversions between unique, shared and
 upgrade locks did not compile

---
 include/boost/sync/locks/shared_lock.hpp  | 4 ++--
 include/boost/sync/locks/unique_lock.hpp  | 2 +-
 include/boost/sync/locks/upgrade_lock.hpp | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/boost/sync/locks/shared_lock.hpp b/include/boost/sync/locks/shared_lock.hpp
index b825433..f034cc0 100644
--- a/include/boost/sync/locks/shared_lock.hpp
+++ b/include/boost/sync/locks/shared_lock.hpp
@@ -104,7 +104,7 @@ public:
 
     // Conversion from unique locking
     explicit shared_lock(BOOST_RV_REF(unique_lock< mutex_type >) that) :
-        m_mutex(that.m_mutex), m_is_locked(that.m_is_locked)
+        m_mutex(that.mutex()), m_is_locked(that.owns_lock())
     {
         if (m_is_locked)
             m_mutex->unlock_and_lock_shared();
@@ -112,7 +112,7 @@ public:
     }
 
     explicit shared_lock(BOOST_RV_REF(upgrade_lock< mutex_type >) that) :
-        m_mutex(that.m_mutex), m_is_locked(that.m_is_locked)
+        m_mutex(that.mutex()), m_is_locked(that.owns_lock())
     {
         if (m_is_locked)
             m_mutex->unlock_upgrade_and_lock_shared();
diff --git a/include/boost/sync/locks/unique_lock.hpp b/include/boost/sync/locks/unique_lock.hpp
index 98bd74a..4844d90 100644
--- a/include/boost/sync/locks/unique_lock.hpp
+++ b/include/boost/sync/locks/unique_lock.hpp
@@ -103,7 +103,7 @@ public:
     }
 
     explicit unique_lock(BOOST_RV_REF(upgrade_lock< mutex_type >) that) :
-        m_mutex(that.m_mutex), m_is_locked(that.m_is_locked)
+        m_mutex(that.mutex()), m_is_locked(that.owns_lock())
     {
         if (m_is_locked)
             m_mutex->unlock_upgrade_and_lock();
diff --git a/include/boost/sync/locks/upgrade_lock.hpp b/include/boost/sync/locks/upgrade_lock.hpp
index 765fe24..8fe0645 100644
--- a/include/boost/sync/locks/upgrade_lock.hpp
+++ b/include/boost/sync/locks/upgrade_lock.hpp
@@ -103,7 +103,7 @@ public:
     }
 
     explicit upgrade_lock(BOOST_RV_REF(unique_lock< mutex_type >) that) :
-        m_mutex(that.m_mutex), m_is_locked(that.m_is_locked)
+        m_mutex(that.mutex()), m_is_locked(that.owns_lock())
     {
         if (m_is_locked)
             m_mutex->unlock_and_lock_upgrade();
-- 
2.43.0


From 059d44bb4c3c1c24924176c2be48ad6dba07036a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:57:54 +0000
Subject: [PATCH 19/34] fix: thread_specific_ptr: values were lost, or cleaned
 up by another pointer's function, when a thread ended while pointers were
 created or destroyed

---
 src/tss_manager.hpp | 56 +++++++++++++++++++++++++++++----------------
 src/tss_pthread.cpp |  2 +-
 src/tss_windows.cpp |  2 +-
 3 files changed, 38 insertions(+), 22 deletions(-)

diff --git a/src/tss_manager.hpp b/src/tss_manager.hpp
index 6cd7648..182d467 100644
--- a/src/tss_manager.hpp
+++ b/src/tss_manager.hpp
@@ -15,6 +15,7 @@
 #ifndef BOOST_SYNC_IMPL_TSS_MANAGER_HPP_INCLUDED_
 #define BOOST_SYNC_IMPL_TSS_MANAGER_HPP_INCLUDED_
 
+#include <cstddef>
 #include <stack>
 #include <vector>
 #include <boost/assert.hpp>
@@ -79,13 +80,6 @@ public:
                 return NULL;
         }
 
-        void set_value(thread_specific_key key, void* value)
-        {
-            if (key >= m_storage.size())
-                m_storage.resize(key + 1, static_cast< void* >(NULL));
-            m_storage[key] = value;
-        }
-
         void add_at_exit_entry(at_thread_exit_callback callback, void* context)
         {
             at_exit_entry entry;
@@ -162,20 +156,12 @@ public:
         }
 
         // Destroy TLS
-        while (!p->m_storage.empty())
+        void* value = NULL;
+        at_thread_exit_callback cleanup = NULL;
+        while (extract_value(p, value, cleanup))
         {
-            std::vector< void* > storage;
-            storage.swap(p->m_storage);
-            for (thread_specific_key key = 0, n = static_cast< thread_specific_key >(storage.size()); key < n; ++key)
-            {
-                void* const value = storage[key];
-                if (value)
-                {
-                    const at_thread_exit_callback cleanup = m_storage_cleanup[key].cleanup;
-                    if (cleanup)
-                        cleanup(value);
-                }
-            }
+            if (cleanup)
+                cleanup(value);
         }
 
         // Notify about thread termination. This must be performed last, after all TLS variables are destroyed.
@@ -193,6 +179,17 @@ public:
         delete p;
     }
 
+    void set_value(thread_context* p, thread_specific_key key, void* value)
+    {
+        if (key >= p->m_storage.size())
+        {
+            // Other threads may be accessing the storage in delete_key
+            sync::lock_guard< mutex_type > lock(m_mutex);
+            p->m_storage.resize(key + 1, static_cast< void* >(NULL));
+        }
+        p->m_storage[key] = value;
+    }
+
     thread_specific_key new_key(at_thread_exit_callback cleanup, bool cleanup_at_delete)
     {
         sync::lock_guard< mutex_type > lock(m_mutex);
@@ -254,6 +251,25 @@ public:
         }
     }
 
+private:
+    //! Removes a non-NULL value from the thread context. The value and its cleanup function are obtained atomically wrt. \c delete_key.
+    bool extract_value(thread_context* p, void*& value, at_thread_exit_callback& cleanup) BOOST_NOEXCEPT
+    {
+        sync::lock_guard< mutex_type > lock(m_mutex);
+        for (std::size_t key = 0, n = p->m_storage.size(); key < n; ++key)
+        {
+            if (p->m_storage[key])
+            {
+                value = p->m_storage[key];
+                cleanup = m_storage_cleanup[key].cleanup;
+                p->m_storage[key] = NULL;
+                return true;
+            }
+        }
+        return false;
+    }
+
+public:
     BOOST_DELETED_FUNCTION(tss_manager(tss_manager const&))
     BOOST_DELETED_FUNCTION(tss_manager& operator= (tss_manager const&))
 };
diff --git a/src/tss_pthread.cpp b/src/tss_pthread.cpp
index 29d57ca..c1b2c78 100644
--- a/src/tss_pthread.cpp
+++ b/src/tss_pthread.cpp
@@ -160,7 +160,7 @@ BOOST_SYNC_API void set_thread_specific(thread_specific_key key, void* p)
         set_thread_context(ctx);
     }
 
-    ctx->set_value(key, p);
+    tss_mgr->set_value(ctx, key, p);
 }
 
 } // namespace detail
diff --git a/src/tss_windows.cpp b/src/tss_windows.cpp
index 23bf218..480ee2e 100644
--- a/src/tss_windows.cpp
+++ b/src/tss_windows.cpp
@@ -230,7 +230,7 @@ BOOST_SYNC_API void set_thread_specific(thread_specific_key key, void* p)
         set_thread_context(ctx);
     }
 
-    ctx->set_value(key, p);
+    tss_mgr->set_value(ctx, key, p);
 }
 
 } // namespace detail
-- 
2.43.0


From 4fa86720874ebaed72b71d3c6d7a018649a5c0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:57:54 +0000
Subject: [PATCH 20/34] fix: thread exit: callbacks and cleanup functions did
 not see the thread's values, and what they registered could be dropped or run
 after the final notification

---
 src/tss_manager.hpp | 34 +++++++++++++++++++---------------
 src/tss_pthread.cpp | 23 ++++++++++++++++-------
 2 files changed, 35 insertions(+), 22 deletions(-)

diff --git a/src/tss_manager.hpp b/src/tss_manager.hpp
index 182d467..ff3115d 100644
--- a/src/tss_manager.hpp
+++ b/src/tss_manager.hpp
@@ -143,26 +143,30 @@ public:
 
     void destroy_thread_context(thread_context* p) BOOST_NOEXCEPT
     {
-        // Run cleanup functions
-        while (!p->m_at_exit_functions.empty())
+        void* value = NULL;
+        at_thread_exit_callback cleanup = NULL;
+        do
         {
-            std::vector< thread_context::at_exit_entry > at_exit_functions;
-            at_exit_functions.swap(p->m_at_exit_functions);
-
-            for (std::vector< thread_context::at_exit_entry >::reverse_iterator it = at_exit_functions.rbegin(), end = at_exit_functions.rend(); it != end; ++it)
+            // Run cleanup functions
+            while (!p->m_at_exit_functions.empty())
             {
-                it->callback(it->context);
+                std::vector< thread_context::at_exit_entry > at_exit_functions;
+                at_exit_functions.swap(p->m_at_exit_functions);
+
+                for (std::vector< thread_context::at_exit_entry >::reverse_iterator it = at_exit_functions.rbegin(), end = at_exit_functions.rend(); it != end; ++it)
+                {
+                    it->callback(it->context);
+                }
             }
-        }
 
-        // Destroy TLS
-        void* value = NULL;
-        at_thread_exit_callback cleanup = NULL;
-        while (extract_value(p, value, cleanup))
-        {
-            if (cleanup)
-                cleanup(value);
+            // Destroy TLS
+            while (extract_value(p, value, cleanup))
+            {
+                if (cleanup)
+                    cleanup(value);
+            }
         }
+        while (!p->m_at_exit_functions.empty()); // the cleanup functions may have registered more functions
 
         // Notify about thread termination. This must be performed last, after all TLS variables are destroyed.
         for (std::vector< thread_context::notify_at_exit_entry >::const_iterator it = p->m_notify_at_exit.begin(), end = p->m_notify_at_exit.end(); it != end; ++it)
diff --git a/src/tss_pthread.cpp b/src/tss_pthread.cpp
index c1b2c78..e5e3041 100644
--- a/src/tss_pthread.cpp
+++ b/src/tss_pthread.cpp
@@ -43,13 +43,7 @@ static pthread_key_t tss_key;
 
 extern "C" {
 
-static void tss_cleanup(void* p)
-{
-    if (tss_manager::thread_context* ctx = static_cast< tss_manager::thread_context* >(p))
-    {
-        tss_mgr->destroy_thread_context(ctx);
-    }
-}
+static void tss_cleanup(void* p);
 
 static void init_tss()
 {
@@ -94,6 +88,21 @@ BOOST_FORCEINLINE void set_thread_context(tss_manager::thread_context* p) BOOST_
 
 #endif // defined(BOOST_SYNC_DETAIL_TLS)
 
+extern "C" {
+
+static void tss_cleanup(void* p)
+{
+    if (tss_manager::thread_context* ctx = static_cast< tss_manager::thread_context* >(p))
+    {
+        // The context has to be accessible to the functions being called. Note that pthread resets the pointer before calling us.
+        set_thread_context(ctx);
+        tss_mgr->destroy_thread_context(ctx);
+        set_thread_context(NULL);
+    }
+}
+
+} // extern "C"
+
 } // namespace
 
 BOOST_SYNC_API void add_thread_exit_notify_entry(sync::mutex& mtx, sync::condition_variable& cond)
-- 
2.43.0


From 955efe76a3c771a33dfe7af34627dec22db5be81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:57:54 +0000
Subject: [PATCH 21/34] fix: thread exit: with compiler TLS no cleanup was ever
 performed

---
 src/tss_pthread.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/tss_pthread.cpp b/src/tss_pthread.cpp
index e5e3041..bd05232 100644
--- a/src/tss_pthread.cpp
+++ b/src/tss_pthread.cpp
@@ -37,9 +37,8 @@ static pthread_once_t init_tss_once_flag = PTHREAD_ONCE_INIT;
 static tss_manager* tss_mgr = NULL;
 #if defined(BOOST_SYNC_DETAIL_TLS)
 static BOOST_SYNC_DETAIL_TLS tss_manager::thread_context* tss_context = NULL;
-#else
-static pthread_key_t tss_key;
 #endif
+static pthread_key_t tss_key;
 
 extern "C" {
 
@@ -56,10 +55,8 @@ static void init_tss()
         std::abort();
     }
 
-#if !defined(BOOST_SYNC_DETAIL_TLS)
     if (pthread_key_create(&tss_key, &tss_cleanup) != 0)
         std::abort();
-#endif
 }
 
 } // extern "C"
@@ -73,6 +70,8 @@ BOOST_FORCEINLINE tss_manager::thread_context* get_thread_context() BOOST_NOEXCE
 BOOST_FORCEINLINE void set_thread_context(tss_manager::thread_context* p) BOOST_NOEXCEPT
 {
     tss_context = p;
+    // Make sure tss_cleanup is called on thread termination
+    pthread_setspecific(tss_key, p);
 }
 
 #else // defined(BOOST_SYNC_DETAIL_TLS)
-- 
2.43.0


From 1e57fe72ab282e39f38d065643608f3e0535a4f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:08 +0000
Subject: [PATCH 22/34] fix: timed operations: waiting until a time point of a
 non-system clock with another duration type did not compile

---
 .../condition_variables/condition_variable_posix.hpp      | 8 +++-----
 .../boost/sync/detail/events/auto_reset_event_futex.hpp   | 8 +++-----
 .../boost/sync/detail/events/manual_reset_event_futex.hpp | 8 +++-----
 include/boost/sync/detail/mutexes/timed_mutex_posix.hpp   | 8 +++-----
 include/boost/sync/detail/semaphore/semaphore_posix.hpp   | 8 +++-----
 include/boost/sync/detail/time_traits.hpp                 | 7 +++++++
 6 files changed, 22 insertions(+), 25 deletions(-)

diff --git a/include/boost/sync/detail/condition_variables/condition_variable_posix.hpp b/include/boost/sync/detail/condition_variables/condition_variable_posix.hpp
index a2078c6..feaaeb3 100644
--- a/include/boost/sync/detail/condition_variables/condition_variable_posix.hpp
+++ b/include/boost/sync/detail/condition_variables/condition_variable_posix.hpp
@@ -230,13 +230,11 @@ private:
     template< typename Mutex, typename TimePoint >
     sync::cv_status priv_timed_wait(unique_lock< Mutex >& lock, sync::detail::chrono_time_point< TimePoint > const& t)
     {
-        typedef TimePoint time_point;
-        typedef typename time_point::clock clock;
-        typedef typename time_point::duration duration;
-        time_point now = clock::now();
+        typedef typename TimePoint::clock clock;
+        typename clock::time_point now = clock::now();
         while (now < t.get())
         {
-            if (priv_timed_wait(lock, sync::detail::time_traits< duration >::to_sync_unit(t.get() - now)) == sync::cv_status::no_timeout)
+            if (priv_timed_wait(lock, sync::detail::to_sync_duration(t.get() - now)) == sync::cv_status::no_timeout)
                 return sync::cv_status::no_timeout;
             now = clock::now();
         }
diff --git a/include/boost/sync/detail/events/auto_reset_event_futex.hpp b/include/boost/sync/detail/events/auto_reset_event_futex.hpp
index 6872895..6b6b63c 100644
--- a/include/boost/sync/detail/events/auto_reset_event_futex.hpp
+++ b/include/boost/sync/detail/events/auto_reset_event_futex.hpp
@@ -237,13 +237,11 @@ private:
     template< typename TimePoint >
     bool priv_timed_wait(sync::detail::chrono_time_point< TimePoint > const& t)
     {
-        typedef TimePoint time_point;
-        typedef typename time_point::clock clock;
-        typedef typename time_point::duration duration;
-        time_point now = clock::now();
+        typedef typename TimePoint::clock clock;
+        typename clock::time_point now = clock::now();
         do
         {
-            if (priv_timed_wait(sync::detail::time_traits< duration >::to_sync_unit(now < t.get() ? duration(t.get() - now) : duration::zero())))
+            if (priv_timed_wait(now < t.get() ? sync::detail::to_sync_duration(t.get() - now) : sync::detail::system_duration()))
                 return true;
             now = clock::now();
         }
diff --git a/include/boost/sync/detail/events/manual_reset_event_futex.hpp b/include/boost/sync/detail/events/manual_reset_event_futex.hpp
index 5a71062..02c8fa1 100644
--- a/include/boost/sync/detail/events/manual_reset_event_futex.hpp
+++ b/include/boost/sync/detail/events/manual_reset_event_futex.hpp
@@ -159,13 +159,11 @@ private:
     template< typename TimePoint >
     bool priv_timed_wait(sync::detail::chrono_time_point< TimePoint > const& t)
     {
-        typedef TimePoint time_point;
-        typedef typename time_point::clock clock;
-        typedef typename time_point::duration duration;
-        time_point now = clock::now();
+        typedef typename TimePoint::clock clock;
+        typename clock::time_point now = clock::now();
         do
         {
-            if (priv_timed_wait(sync::detail::time_traits< duration >::to_sync_unit(now < t.get() ? duration(t.get() - now) : duration::zero())))
+            if (priv_timed_wait(now < t.get() ? sync::detail::to_sync_duration(t.get() - now) : sync::detail::system_duration()))
                 return true;
             now = clock::now();
         }
diff --git a/include/boost/sync/detail/mutexes/timed_mutex_posix.hpp b/include/boost/sync/detail/mutexes/timed_mutex_posix.hpp
index 1c6d9cd..6e34407 100644
--- a/include/boost/sync/detail/mutexes/timed_mutex_posix.hpp
+++ b/include/boost/sync/detail/mutexes/timed_mutex_posix.hpp
@@ -252,13 +252,11 @@ private:
         if (try_lock())
             return true;
 
-        typedef TimePoint time_point;
-        typedef typename time_point::clock clock;
-        typedef typename time_point::duration duration;
-        time_point now = clock::now();
+        typedef typename TimePoint::clock clock;
+        typename clock::time_point now = clock::now();
         while (now < t.get())
         {
-            if (priv_timed_lock(sync::detail::time_traits< duration >::to_sync_unit(t.get() - now)))
+            if (priv_timed_lock(sync::detail::to_sync_duration(t.get() - now)))
                 return true;
             now = clock::now();
         }
diff --git a/include/boost/sync/detail/semaphore/semaphore_posix.hpp b/include/boost/sync/detail/semaphore/semaphore_posix.hpp
index b662b38..570ab1e 100644
--- a/include/boost/sync/detail/semaphore/semaphore_posix.hpp
+++ b/include/boost/sync/detail/semaphore/semaphore_posix.hpp
@@ -174,13 +174,11 @@ private:
     template< typename TimePoint >
     bool priv_timed_wait(sync::detail::chrono_time_point< TimePoint > const& t)
     {
-        typedef TimePoint time_point;
-        typedef typename time_point::clock clock;
-        typedef typename time_point::duration duration;
-        time_point now = clock::now();
+        typedef typename TimePoint::clock clock;
+        typename clock::time_point now = clock::now();
         do
         {
-            if (priv_timed_wait(sync::detail::time_traits< duration >::to_sync_unit(now < t.get() ? duration(t.get() - now) : duration::zero())))
+            if (priv_timed_wait(now < t.get() ? sync::detail::to_sync_duration(t.get() - now) : sync::detail::system_duration()))
                 return true;
             now = clock::now();
         } while (now < t.get());
diff --git a/include/boost/sync/detail/time_traits.hpp b/include/boost/sync/detail/time_traits.hpp
index 90b4f18..8e13fbe 100644
--- a/include/boost/sync/detail/time_traits.hpp
+++ b/include/boost/sync/detail/time_traits.hpp
@@ -39,6 +39,13 @@ struct time_traits
     static BOOST_CONSTEXPR_OR_CONST bool is_specialized = false;
 };
 
+//! Converts a duration to the native unit
+template< typename Duration >
+inline typename time_traits< Duration >::unit_type to_sync_duration(Duration const& dur)
+{
+    return time_traits< Duration >::to_sync_unit(dur);
+}
+
 template< typename T, typename Tag, typename R >
 struct enable_if_tag
 {
-- 
2.43.0


From 42119db9b205804ad67d448d5c06f290b7126b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:24 +0000
Subject: [PATCH 23/34] fix: a timed wait on a condition variable does not
 block again after the system clock reached the timeout first

A wait until a time point of another clock was repeated when the system clock, by which
the wait is actually measured, advanced faster. A notification made between the two waits
was lost, and the thread stayed blocked until the timeout.
---
 .../condition_variables/condition_variable_posix.hpp   | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/boost/sync/detail/condition_variables/condition_variable_posix.hpp b/include/boost/sync/detail/condition_variables/condition_variable_posix.hpp
index feaaeb3..4d22f77 100644
--- a/include/boost/sync/detail/condition_variables/condition_variable_posix.hpp
+++ b/include/boost/sync/detail/condition_variables/condition_variable_posix.hpp
@@ -231,12 +231,14 @@ private:
     sync::cv_status priv_timed_wait(unique_lock< Mutex >& lock, sync::detail::chrono_time_point< TimePoint > const& t)
     {
         typedef typename TimePoint::clock clock;
-        typename clock::time_point now = clock::now();
-        while (now < t.get())
+        typename clock::time_point const now = clock::now();
+        if (now < t.get())
         {
-            if (priv_timed_wait(lock, sync::detail::to_sync_duration(t.get() - now)) == sync::cv_status::no_timeout)
+            // The system clock, which the wait is measured by, may reach the timeout earlier than the clock of the time point.
+            // We must not block again in this case, as a notification may have been made while no thread was blocked on the condition
+            // variable. Let the caller re-test its condition instead.
+            if (priv_timed_wait(lock, sync::detail::to_sync_duration(t.get() - now)) == sync::cv_status::no_timeout || clock::now() < t.get())
                 return sync::cv_status::no_timeout;
-            now = clock::now();
         }
         return sync::cv_status::timeout;
     }
-- 
2.43.0


From 7f333cc8de43bc2f60daa371e68c72711a2fa51b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:50 +0000
Subject: [PATCH 24/34] fix: Windows, OS X: waiting until a time point of a
 non-system clock with another duration type did not compile

---
 .../basic_condition_variable_windows.hpp                  | 8 +++-----
 include/boost/sync/detail/events/basic_event_windows.hpp  | 8 +++-----
 include/boost/sync/detail/mutexes/timed_mutex_windows.hpp | 8 +++-----
 .../boost/sync/detail/semaphore/basic_semaphore_mach.hpp  | 8 +++-----
 .../boost/sync/detail/semaphore/semaphore_dispatch.hpp    | 8 +++-----
 include/boost/sync/detail/semaphore/semaphore_windows.hpp | 8 +++-----
 6 files changed, 18 insertions(+), 30 deletions(-)

diff --git a/include/boost/sync/detail/condition_variables/basic_condition_variable_windows.hpp b/include/boost/sync/detail/condition_variables/basic_condition_variable_windows.hpp
index c6d8789..d6df3cc 100644
--- a/include/boost/sync/detail/condition_variables/basic_condition_variable_windows.hpp
+++ b/include/boost/sync/detail/condition_variables/basic_condition_variable_windows.hpp
@@ -239,13 +239,11 @@ public:
     template< typename Lockable, typename TimePoint >
     sync::cv_status timed_wait(Lockable& lock, sync::detail::chrono_time_point< TimePoint > const& t)
     {
-        typedef TimePoint time_point;
-        typedef typename time_point::clock clock;
-        typedef typename time_point::duration duration;
-        time_point now = clock::now();
+        typedef typename TimePoint::clock clock;
+        typename clock::time_point now = clock::now();
         while (now < t.get())
         {
-            if (timed_wait(lock, sync::detail::time_traits< duration >::to_sync_unit(t.get() - now)) == sync::cv_status::no_timeout)
+            if (timed_wait(lock, sync::detail::to_sync_duration(t.get() - now)) == sync::cv_status::no_timeout)
                 return sync::cv_status::no_timeout;
             now = clock::now();
         }
diff --git a/include/boost/sync/detail/events/basic_event_windows.hpp b/include/boost/sync/detail/events/basic_event_windows.hpp
index 0a78185..ba73a12 100644
--- a/include/boost/sync/detail/events/basic_event_windows.hpp
+++ b/include/boost/sync/detail/events/basic_event_windows.hpp
@@ -171,13 +171,11 @@ public:
     template< typename TimePoint >
     bool timed_wait(sync::detail::chrono_time_point< TimePoint > const& t)
     {
-        typedef TimePoint time_point;
-        typedef typename time_point::clock clock;
-        typedef typename time_point::duration duration;
-        time_point now = clock::now();
+        typedef typename TimePoint::clock clock;
+        typename clock::time_point now = clock::now();
         do
         {
-            if (timed_wait(sync::detail::time_traits< duration >::to_sync_unit(t.get() - now)))
+            if (timed_wait(now < t.get() ? sync::detail::to_sync_duration(t.get() - now) : sync::detail::system_duration()))
                 return true;
             now = clock::now();
         }
diff --git a/include/boost/sync/detail/mutexes/timed_mutex_windows.hpp b/include/boost/sync/detail/mutexes/timed_mutex_windows.hpp
index de549e9..717dc0c 100644
--- a/include/boost/sync/detail/mutexes/timed_mutex_windows.hpp
+++ b/include/boost/sync/detail/mutexes/timed_mutex_windows.hpp
@@ -210,13 +210,11 @@ private:
     template< typename TimePoint >
     bool priv_timed_lock(sync::detail::chrono_time_point< TimePoint > const& t)
     {
-        typedef TimePoint time_point;
-        typedef typename time_point::clock clock;
-        typedef typename time_point::duration duration;
-        time_point now = clock::now();
+        typedef typename TimePoint::clock clock;
+        typename clock::time_point now = clock::now();
         while (now < t.get())
         {
-            if (priv_timed_lock(sync::detail::time_traits< duration >::to_sync_unit(t.get() - now)))
+            if (priv_timed_lock(sync::detail::to_sync_duration(t.get() - now)))
                 return true;
             now = clock::now();
         }
diff --git a/include/boost/sync/detail/semaphore/basic_semaphore_mach.hpp b/include/boost/sync/detail/semaphore/basic_semaphore_mach.hpp
index 19ee1e0..4ebd07a 100644
--- a/include/boost/sync/detail/semaphore/basic_semaphore_mach.hpp
+++ b/include/boost/sync/detail/semaphore/basic_semaphore_mach.hpp
@@ -134,13 +134,11 @@ public:
     template< typename TimePoint >
     bool timed_wait(sync::detail::chrono_time_point< TimePoint > const& t)
     {
-        typedef TimePoint time_point;
-        typedef typename time_point::clock clock;
-        typedef typename time_point::duration duration;
-        time_point now = clock::now();
+        typedef typename TimePoint::clock clock;
+        typename clock::time_point now = clock::now();
         while (now < t.get())
         {
-            if (timed_wait(sync::detail::time_traits< duration >::to_sync_unit(t.get() - now)))
+            if (timed_wait(sync::detail::to_sync_duration(t.get() - now)))
                 return true;
             now = clock::now();
         }
diff --git a/include/boost/sync/detail/semaphore/semaphore_dispatch.hpp b/include/boost/sync/detail/semaphore/semaphore_dispatch.hpp
index fad42d7..30fc434 100644
--- a/include/boost/sync/detail/semaphore/semaphore_dispatch.hpp
+++ b/include/boost/sync/detail/semaphore/semaphore_dispatch.hpp
@@ -126,13 +126,11 @@ private:
     template< typename TimePoint >
     bool priv_timed_wait(sync::detail::chrono_time_point< TimePoint > const& t)
     {
-        typedef TimePoint time_point;
-        typedef typename time_point::clock clock;
-        typedef typename time_point::duration duration;
-        time_point now = clock::now();
+        typedef typename TimePoint::clock clock;
+        typename clock::time_point now = clock::now();
         do
         {
-            if (priv_timed_wait(sync::detail::time_traits< duration >::to_sync_unit(t.get() - now)))
+            if (priv_timed_wait(now < t.get() ? sync::detail::to_sync_duration(t.get() - now) : sync::detail::system_duration()))
                 return true;
             now = clock::now();
         } while (now < t.get());
diff --git a/include/boost/sync/detail/semaphore/semaphore_windows.hpp b/include/boost/sync/detail/semaphore/semaphore_windows.hpp
index 657afce..b8ae73e 100644
--- a/include/boost/sync/detail/semaphore/semaphore_windows.hpp
+++ b/include/boost/sync/detail/semaphore/semaphore_windows.hpp
@@ -179,13 +179,11 @@ private:
     template< typename TimePoint >
     bool priv_timed_wait(sync::detail::chrono_time_point< TimePoint > const& t)
     {
-        typedef TimePoint time_point;
-        typedef typename time_point::clock clock;
-        typedef typename time_point::duration duration;
-        time_point now = clock::now();
+        typedef typename TimePoint::clock clock;
+        typename clock::time_point now = clock::now();
         do
         {
-            if (priv_timed_wait(sync::detail::time_traits< duration >::to_sync_unit(t.get() - now)))
+            if (priv_timed_wait(now < t.get() ? sync::detail::to_sync_duration(t.get() - now) : sync::detail::system_duration()))
                 return true;
             now = clock::now();
         }
-- 
2.43.0


From ca98b5f7b0ecde3100e51404b0383683c0d781b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:50 +0000
Subject: [PATCH 25/34] fix: Windows: locking a contended mutex did not acquire
 what the previous owner released

---
 include/boost/sync/detail/mutexes/basic_mutex_windows.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/sync/detail/mutexes/basic_mutex_windows.hpp b/include/boost/sync/detail/mutexes/basic_mutex_windows.hpp
index 0146dc2..7722974 100644
--- a/include/boost/sync/detail/mutexes/basic_mutex_windows.hpp
+++ b/include/boost/sync/detail/mutexes/basic_mutex_windows.hpp
@@ -131,7 +131,7 @@ public:
         {
             const boost::uint32_t was_locked = (old_count & lock_flag_value);
             const boost::uint32_t new_count = was_locked ? (old_count + 1u) : (old_count | lock_flag_value);
-            if (m_active_count.compare_exchange_weak(old_count, new_count, boost::memory_order_relaxed, boost::memory_order_relaxed))
+            if (m_active_count.compare_exchange_weak(old_count, new_count, boost::memory_order_acquire, boost::memory_order_relaxed))
             {
                 if (was_locked)
                     old_count = new_count;
@@ -147,7 +147,7 @@ public:
         while (true)
         {
             const boost::uint32_t new_count = ((old_count & lock_flag_value) ? old_count : ((old_count - 1u) | lock_flag_value)) & ~static_cast< boost::uint32_t >(event_set_flag_value);
-            if (m_active_count.compare_exchange_weak(old_count, new_count, boost::memory_order_relaxed, boost::memory_order_relaxed))
+            if (m_active_count.compare_exchange_weak(old_count, new_count, boost::memory_order_acquire, boost::memory_order_relaxed))
                 break;
         }
     }
-- 
2.43.0


From 20fe861980c3f81a5b037eab5b2605ae98b77e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:50 +0000
Subject: [PATCH 26/34] fix: Windows: semaphore::timed_wait reports a failure
 to wait with wait_error

---
 include/boost/sync/detail/semaphore/semaphore_windows.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/sync/detail/semaphore/semaphore_windows.hpp b/include/boost/sync/detail/semaphore/semaphore_windows.hpp
index b8ae73e..d60ed10 100644
--- a/include/boost/sync/detail/semaphore/semaphore_windows.hpp
+++ b/include/boost/sync/detail/semaphore/semaphore_windows.hpp
@@ -171,7 +171,7 @@ private:
         case boost::winapi::wait_failed:
             {
                 const boost::winapi::DWORD_ err = boost::winapi::GetLastError();
-                BOOST_SYNC_DETAIL_THROW(lock_error, (err)("semaphore::timed_wait failed in WaitForMultipleObjects"));
+                BOOST_SYNC_DETAIL_THROW(wait_error, (err)("semaphore::timed_wait failed in WaitForMultipleObjects"));
             }
         }
     }
-- 
2.43.0


From b2e5451c47f4b1450d3ddf66d89e6bb53f6f0091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:50 +0000
Subject: [PATCH 27/34] fix: Windows: the TLS key of the waitable timers was
 read without ordering after its initialization

---
 include/boost/sync/detail/waitable_timer.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/sync/detail/waitable_timer.hpp b/include/boost/sync/detail/waitable_timer.hpp
index 64cb8e1..bfc61f6 100644
--- a/include/boost/sync/detail/waitable_timer.hpp
+++ b/include/boost/sync/detail/waitable_timer.hpp
@@ -302,7 +302,8 @@ inline boost::winapi::HANDLE_ get_waitable_timer()
 {
     waitable_timer_state& state = weak_linkage< waitable_timer_state >::value;
 
-    if (state.initialized != waitable_timer_state::st_initialized)
+    // Note: A plain read would not be ordered with the following read of the TLS key
+    if (BOOST_INTERLOCKED_COMPARE_EXCHANGE(&state.initialized, waitable_timer_state::st_initialized, waitable_timer_state::st_initialized) != waitable_timer_state::st_initialized)
         state.init();
 
     waitable_timer_state::thread_local_context* p =
-- 
2.43.0


From 6044ae16346026e44b8df1b905dc27638b908cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:50 +0000
Subject: [PATCH 28/34] fix: Windows: a relative timeout of timed_mutex started
 anew whenever another thread was faster to lock the mutex

---
 .../detail/mutexes/timed_mutex_windows.hpp    | 61 ++++---------------
 include/boost/sync/detail/waitable_timer.hpp  | 16 +++++
 2 files changed, 29 insertions(+), 48 deletions(-)

diff --git a/include/boost/sync/detail/mutexes/timed_mutex_windows.hpp b/include/boost/sync/detail/mutexes/timed_mutex_windows.hpp
index 717dc0c..616d47b 100644
--- a/include/boost/sync/detail/mutexes/timed_mutex_windows.hpp
+++ b/include/boost/sync/detail/mutexes/timed_mutex_windows.hpp
@@ -109,6 +109,18 @@ public:
 
 private:
     bool priv_timed_lock(sync::detail::system_time_point const& t)
+    {
+        return priv_timed_lock(*reinterpret_cast< const boost::winapi::LARGE_INTEGER_* >(&t.get()));
+    }
+
+    bool priv_timed_lock(sync::detail::system_duration t)
+    {
+        // The timer is set once, so that the timeout is not extended when the thread is woken up but fails to lock the mutex
+        return priv_timed_lock(sync::detail::windows::get_relative_due_time(t));
+    }
+
+    // Locks the mutex unless the waitable timer that is set to the due time expires first
+    bool priv_timed_lock(boost::winapi::LARGE_INTEGER_ const& due_time)
     {
         boost::uint32_t old_count = m_mutex.m_active_count.load(boost::memory_order_acquire);
         m_mutex.mark_waiting_and_try_lock(old_count);
@@ -121,7 +133,7 @@ private:
             handles[0] = m_mutex.get_event();
             handles[1] = sync::detail::windows::get_waitable_timer();
 
-            if (BOOST_UNLIKELY(!boost::winapi::SetWaitableTimer(handles[1], reinterpret_cast< const boost::winapi::LARGE_INTEGER_* >(&t.get()), 0, NULL, NULL, false)))
+            if (BOOST_UNLIKELY(!boost::winapi::SetWaitableTimer(handles[1], &due_time, 0, NULL, NULL, false)))
             {
                 const boost::winapi::DWORD_ err = boost::winapi::GetLastError();
                 BOOST_SYNC_DETAIL_THROW(lock_error, (err)("timed_mutex::timed_lock failed to set a timeout"));
@@ -160,53 +172,6 @@ private:
         }
     }
 
-    bool priv_timed_lock(sync::detail::system_duration t)
-    {
-        boost::uint32_t old_count = m_mutex.m_active_count.load(boost::memory_order_acquire);
-        m_mutex.mark_waiting_and_try_lock(old_count);
-        if ((old_count & sync::detail::windows::basic_mutex::lock_flag_value) == 0u)
-            return true;
-
-        try
-        {
-            const boost::winapi::HANDLE_ evt = m_mutex.get_event();
-            sync::detail::system_duration::native_type time_left = t.get();
-            while (time_left > 0)
-            {
-                const boost::winapi::DWORD_ dur = time_left > boost::winapi::max_non_infinite_wait ?
-                    boost::winapi::max_non_infinite_wait : static_cast< boost::winapi::DWORD_ >(time_left);
-                const boost::winapi::DWORD_ res = boost::winapi::WaitForSingleObject(evt, dur);
-                switch (res)
-                {
-                case boost::winapi::wait_object_0:
-                    m_mutex.clear_waiting_and_try_lock(old_count);
-                    if ((old_count & sync::detail::windows::basic_mutex::lock_flag_value) == 0)
-                        return true;
-                    break;
-
-                case boost::winapi::wait_timeout:
-                    time_left -= dur;
-                    break;
-
-                default:
-                    {
-                        const boost::winapi::DWORD_ err = boost::winapi::GetLastError();
-                        BOOST_SYNC_DETAIL_THROW(lock_error, (err)("timed_mutex::timed_lock failed in WaitForSingleObject"));
-                    }
-                }
-            }
-
-            m_mutex.m_active_count.opaque_sub(1u, boost::memory_order_relaxed);
-
-            return false;
-        }
-        catch (...)
-        {
-            m_mutex.m_active_count.opaque_sub(1u, boost::memory_order_relaxed);
-            throw;
-        }
-    }
-
     template< typename TimePoint >
     bool priv_timed_lock(sync::detail::chrono_time_point< TimePoint > const& t)
     {
diff --git a/include/boost/sync/detail/waitable_timer.hpp b/include/boost/sync/detail/waitable_timer.hpp
index bfc61f6..a6fb7a2 100644
--- a/include/boost/sync/detail/waitable_timer.hpp
+++ b/include/boost/sync/detail/waitable_timer.hpp
@@ -36,6 +36,7 @@
 #include <boost/sync/detail/config.hpp>
 #include <boost/sync/detail/weak_linkage.hpp>
 #include <boost/sync/detail/throw_exception.hpp>
+#include <boost/sync/detail/time_units.hpp>
 #include <boost/sync/exceptions/resource_error.hpp>
 #include <boost/sync/detail/header.hpp>
 
@@ -318,6 +319,21 @@ inline boost::winapi::HANDLE_ get_waitable_timer()
     return p->waitable_timer;
 }
 
+//! Converts a relative timeout to the due time of a waitable timer
+inline boost::winapi::LARGE_INTEGER_ get_relative_due_time(sync::detail::system_duration t) BOOST_NOEXCEPT
+{
+    // Relative due time is a negative number of 100 nanosecond units. Zero is an absolute time in the past, the timer expires immediately.
+    BOOST_CONSTEXPR_OR_CONST sync::detail::system_duration::native_type max_duration = 0x7FFFFFFFFFFFFFFFll / 10000;
+    sync::detail::system_duration::native_type duration = t.get();
+    if (duration < 0)
+        duration = 0;
+    else if (duration > max_duration)
+        duration = max_duration;
+    boost::winapi::LARGE_INTEGER_ due_time;
+    due_time.QuadPart = duration * -10000;
+    return due_time;
+}
+
 } // namespace windows
 
 } // namespace detail
-- 
2.43.0


From 3b5a0db4b1cfc6f55ed58ee0a81aea7a88ab692c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:50 +0000
Subject: [PATCH 29/34] fix: Windows: a relative timeout of a condition
 variable started anew whenever another thread consumed the notification

---
 .../basic_condition_variable_windows.hpp      | 85 ++++---------------
 1 file changed, 15 insertions(+), 70 deletions(-)

diff --git a/include/boost/sync/detail/condition_variables/basic_condition_variable_windows.hpp b/include/boost/sync/detail/condition_variables/basic_condition_variable_windows.hpp
index d6df3cc..478233e 100644
--- a/include/boost/sync/detail/condition_variables/basic_condition_variable_windows.hpp
+++ b/include/boost/sync/detail/condition_variables/basic_condition_variable_windows.hpp
@@ -207,33 +207,13 @@ public:
     template< typename Lockable >
     sync::cv_status timed_wait(Lockable& lock, sync::detail::system_duration t)
     {
-        relocker< Lockable > unlocker(lock);
-
-        waiter_state* const state = initiate_wait();
-
-        unlocker.unlock();
-
-        return priv_timed_wait(state, t);
+        return priv_timed_wait(lock, sync::detail::windows::get_relative_due_time(t));
     }
 
     template< typename Lockable >
     sync::cv_status timed_wait(Lockable& lock, sync::detail::system_time_point const& t)
     {
-        relocker< Lockable > unlocker(lock);
-
-        const boost::winapi::HANDLE_ waitable_timer = sync::detail::windows::get_waitable_timer();
-
-        if (BOOST_UNLIKELY(!boost::winapi::SetWaitableTimer(waitable_timer, reinterpret_cast< const boost::winapi::LARGE_INTEGER_* >(&t.get()), 0, NULL, NULL, false)))
-        {
-            const boost::winapi::DWORD_ err = boost::winapi::GetLastError();
-            BOOST_SYNC_DETAIL_THROW(wait_error, (err)("condition_variable timed_wait failed to set a timeout"));
-        }
-
-        waiter_state* const state = initiate_wait();
-
-        unlocker.unlock();
-
-        return priv_timed_wait(state, waitable_timer);
+        return priv_timed_wait(lock, *reinterpret_cast< const boost::winapi::LARGE_INTEGER_* >(&t.get()));
     }
 
     template< typename Lockable, typename TimePoint >
@@ -352,59 +332,24 @@ private:
         }
     }
 
-    sync::cv_status priv_timed_wait(waiter_state* state, sync::detail::system_duration t)
+    template< typename Lockable >
+    sync::cv_status priv_timed_wait(Lockable& lock, boost::winapi::LARGE_INTEGER_ const& due_time)
     {
-        sync::detail::system_duration::native_type time_left = t.get();
-        while (time_left > 0)
-        {
-            const boost::winapi::DWORD_ dur = time_left > boost::winapi::max_non_infinite_wait ?
-                boost::winapi::max_non_infinite_wait : static_cast< boost::winapi::DWORD_ >(time_left);
-            const boost::winapi::DWORD_ res = boost::winapi::WaitForSingleObject(state->m_semaphore, dur);
-            switch (res)
-            {
-            case boost::winapi::wait_object_0: // condition variable was signalled
-                {
-                    boost::sync::lock_guard< mutex_type > internal_lock(m_internal_mutex);
-                    if (state->m_notify_count > 0u)
-                    {
-                        // Total waiter count is already actual here (see wake_waiters)
-                        --state->m_notify_count;
-                        --state->m_waiter_count;
-                        return sync::cv_status::no_timeout;
-                    }
-                }
-                break;
-
-            case boost::winapi::wait_timeout: // timeout expired
-                time_left -= dur;
-                break;
+        relocker< Lockable > unlocker(lock);
 
-            default: // error occurred
-                {
-                    const boost::winapi::DWORD_ err = boost::winapi::GetLastError();
-                    {
-                        boost::sync::lock_guard< mutex_type > internal_lock(m_internal_mutex);
-                        --state->m_waiter_count;
-                        if (state->m_notify_count > 0u)
-                            --state->m_notify_count;
-                        else
-                            m_total_waiter_count.opaque_sub(1u, boost::memory_order_relaxed);
-                    }
-                    BOOST_SYNC_DETAIL_THROW(wait_error, (err)("condition_variable timed_wait failed in WaitForSingleObject"));
-                }
-            }
-        }
+        const boost::winapi::HANDLE_ waitable_timer = sync::detail::windows::get_waitable_timer();
 
-        boost::sync::lock_guard< mutex_type > internal_lock(m_internal_mutex);
-        --state->m_waiter_count;
-        if (state->m_notify_count > 0u)
+        if (BOOST_UNLIKELY(!boost::winapi::SetWaitableTimer(waitable_timer, &due_time, 0, NULL, NULL, false)))
         {
-            // Total waiter count is already actual here (see wake_waiters)
-            --state->m_notify_count;
-            return sync::cv_status::no_timeout;
+            const boost::winapi::DWORD_ err = boost::winapi::GetLastError();
+            BOOST_SYNC_DETAIL_THROW(wait_error, (err)("condition_variable timed_wait failed to set a timeout"));
         }
-        m_total_waiter_count.opaque_sub(1u, boost::memory_order_relaxed);
-        return sync::cv_status::timeout;
+
+        waiter_state* const state = initiate_wait();
+
+        unlocker.unlock();
+
+        return priv_timed_wait(state, waitable_timer);
     }
 
     sync::cv_status priv_timed_wait(waiter_state* state, boost::winapi::HANDLE_ waitable_timer)
-- 
2.43.0


From 4fa65ae6e33cc2904d5f22fbc0edcc80af18c9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:50 +0000
Subject: [PATCH 30/34] fix: Windows: timeouts that are not whole milliseconds
 ended too early

---
 include/boost/sync/support/boost_chrono.hpp    | 8 +++++++-
 include/boost/sync/support/boost_date_time.hpp | 6 ++++--
 include/boost/sync/support/std_chrono.hpp      | 8 +++++++-
 3 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/include/boost/sync/support/boost_chrono.hpp b/include/boost/sync/support/boost_chrono.hpp
index 7c275a6..239d087 100644
--- a/include/boost/sync/support/boost_chrono.hpp
+++ b/include/boost/sync/support/boost_chrono.hpp
@@ -43,7 +43,13 @@ struct time_traits< boost::chrono::duration< Rep, Period > >
     static system_duration to_sync_unit(boost::chrono::duration< Rep, Period > const& dur) BOOST_NOEXCEPT
     {
         typedef boost::chrono::duration< system_duration::native_type, boost::ratio< 1, system_duration::subsecond_fraction > > system_chrono_duration;
-        return system_duration(boost::chrono::duration_cast< system_chrono_duration >(dur).count());
+        system_chrono_duration sys_dur = boost::chrono::duration_cast< system_chrono_duration >(dur);
+#if defined(BOOST_SYNC_DETAIL_PLATFORM_WINAPI)
+        // The native duration is coarse, don't let the timeout become shorter than requested
+        if (sys_dur < dur)
+            ++sys_dur;
+#endif
+        return system_duration(sys_dur.count());
     }
 };
 
diff --git a/include/boost/sync/support/boost_date_time.hpp b/include/boost/sync/support/boost_date_time.hpp
index 5f1634f..72bdefd 100644
--- a/include/boost/sync/support/boost_date_time.hpp
+++ b/include/boost/sync/support/boost_date_time.hpp
@@ -50,8 +50,10 @@ struct time_traits< T, typename T::_is_boost_date_time_duration >
                 traits_type::ticks_per_second / system_duration::subsecond_fraction :
                 system_duration::subsecond_fraction / traits_type::ticks_per_second
         };
-        return system_duration(static_cast< uint64_t >(traits_type::ticks_per_second) >= system_duration::subsecond_fraction ?
-            dur.ticks() / conversion_ratio : dur.ticks() * conversion_ratio);
+        if (static_cast< uint64_t >(traits_type::ticks_per_second) < system_duration::subsecond_fraction)
+            return system_duration(dur.ticks() * conversion_ratio);
+        // If the native duration is coarser, don't let the timeout become shorter than requested
+        return system_duration(dur.ticks() / conversion_ratio + (dur.ticks() % conversion_ratio > 0));
     }
 };
 
diff --git a/include/boost/sync/support/std_chrono.hpp b/include/boost/sync/support/std_chrono.hpp
index 8b81a63..f3ed36b 100644
--- a/include/boost/sync/support/std_chrono.hpp
+++ b/include/boost/sync/support/std_chrono.hpp
@@ -41,7 +41,13 @@ struct time_traits< std::chrono::duration< Rep, Period > >
     static system_duration to_sync_unit(std::chrono::duration< Rep, Period > const& dur) BOOST_NOEXCEPT
     {
         typedef std::chrono::duration< system_duration::native_type, std::ratio< 1, system_duration::subsecond_fraction > > system_chrono_duration;
-        return system_duration(std::chrono::duration_cast< system_chrono_duration >(dur).count());
+        system_chrono_duration sys_dur = std::chrono::duration_cast< system_chrono_duration >(dur);
+#if defined(BOOST_SYNC_DETAIL_PLATFORM_WINAPI)
+        // The native duration is coarse, don't let the timeout become shorter than requested
+        if (sys_dur < dur)
+            ++sys_dur;
+#endif
+        return system_duration(sys_dur.count());
     }
 };
 
-- 
2.43.0


From d1c33e6723906e39560c23527338cb831ae04b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:50 +0000
Subject: [PATCH 31/34] fix: Windows: time points outside the range of FILETIME
 were misinterpreted

---
 include/boost/sync/detail/time_units.hpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/boost/sync/detail/time_units.hpp b/include/boost/sync/detail/time_units.hpp
index 5bd90f5..80d792e 100644
--- a/include/boost/sync/detail/time_units.hpp
+++ b/include/boost/sync/detail/time_units.hpp
@@ -101,13 +101,13 @@ private:
 public:
     BOOST_CONSTEXPR system_time_point() BOOST_NOEXCEPT : m_value(0) {}
     explicit system_time_point(time_t t, unsigned int subsecond = 0) BOOST_NOEXCEPT :
-        m_value(static_cast< uint64_t >(t) * subsecond_fraction + subsecond + 116444736000000000ull)
+        m_value(from_unix_time(t, 10000000, subsecond))
     {
     }
 
     //! Creates time point from duration since 1970-Jan-01
     explicit system_time_point(system_duration dur) BOOST_NOEXCEPT :
-        m_value(dur.get() * 10000u + 116444736000000000ull)
+        m_value(from_unix_time(dur.get(), 10000, 0u))
     {
     }
 
@@ -146,6 +146,18 @@ public:
     {
         return system_duration(static_cast< system_duration::native_type >(left.m_value - right.m_value) / 10000u);
     }
+
+private:
+    //! Converts time since 1970-Jan-01 to the native representation. Unrepresentable time is saturated as the system interprets negative values as durations.
+    static uint64_t from_unix_time(int64_t time, int64_t ratio, unsigned int subsecond) BOOST_NOEXCEPT
+    {
+        const int64_t epoch = 116444736000000000ll, max_value = 0x7FFFFFFFFFFFFFFFll;
+        if (time < -(epoch / ratio))
+            return 0u;
+        if (time >= (max_value - epoch) / ratio)
+            return static_cast< uint64_t >(max_value);
+        return static_cast< uint64_t >(time * ratio + epoch) + subsecond;
+    }
 };
 
 #else
-- 
2.43.0


From a73506b05583365047cc9b2646d9795eb0a490c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:40 +0000
Subject: [PATCH 32/34] fix: Windows: a timed lock could fail although the
 mutex was not locked when the timeout expired

---
 include/boost/sync/detail/mutexes/timed_mutex_windows.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/sync/detail/mutexes/timed_mutex_windows.hpp b/include/boost/sync/detail/mutexes/timed_mutex_windows.hpp
index 616d47b..a80c5b1 100644
--- a/include/boost/sync/detail/mutexes/timed_mutex_windows.hpp
+++ b/include/boost/sync/detail/mutexes/timed_mutex_windows.hpp
@@ -158,7 +158,8 @@ private:
 
                 case boost::winapi::wait_object_0 + 1: // timeout has expired
                     m_mutex.m_active_count.opaque_sub(1u, boost::memory_order_relaxed);
-                    return false;
+                    // The mutex may be unlocked by now, the thread that is woken up to lock it may still be on its way
+                    return m_mutex.try_lock();
 
                 default:
                     BOOST_UNREACHABLE_RETURN(false);
-- 
2.43.0


From 80b98629da73a518864b701069f8519fe713f68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:06 +0000
Subject: [PATCH 33/34] fix: Windows: the state of the thread-specific storage
 was read without ordering after its initialization

---
 src/tss_windows.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tss_windows.cpp b/src/tss_windows.cpp
index 480ee2e..2a3c4c4 100644
--- a/src/tss_windows.cpp
+++ b/src/tss_windows.cpp
@@ -84,7 +84,8 @@ BOOST_FORCEINLINE void init_tss_once()
 
 BOOST_FORCEINLINE void init_tss_once() BOOST_NOEXCEPT
 {
-    if (const_cast< long volatile& >(init_tss_once_flag) != 2)
+    // Note: A plain read would not be ordered with the following accesses to the data initialized by another thread
+    if (BOOST_INTERLOCKED_COMPARE_EXCHANGE(&init_tss_once_flag, 2, 2) != 2)
     {
         while (true)
         {
-- 
2.43.0


From 20e381202df73c66238a0ddcf9a93a402c564d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:00 +0000
Subject: [PATCH 34/34] fix: OS X: time points up to the epoch were waited for
 forever and distant ones overflowed

dispatch_walltime returns DISPATCH_TIME_FOREVER for time points that are not after the epoch and does
not detect overflow of the number of nanoseconds.
---
 .../boost/sync/detail/semaphore/semaphore_dispatch.hpp    | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/boost/sync/detail/semaphore/semaphore_dispatch.hpp b/include/boost/sync/detail/semaphore/semaphore_dispatch.hpp
index 30fc434..b809180 100644
--- a/include/boost/sync/detail/semaphore/semaphore_dispatch.hpp
+++ b/include/boost/sync/detail/semaphore/semaphore_dispatch.hpp
@@ -118,8 +118,14 @@ private:
 
     bool priv_timed_wait(sync::detail::system_time_point const& t)
     {
+        // Note: dispatch_walltime converts time points that are not after the epoch to DISPATCH_TIME_FOREVER
+        // and does not detect overflow of the number of nanoseconds.
         struct timespec timespec_timeout = t.get();
-        dispatch_time_t timeout = dispatch_walltime( &timespec_timeout, 0 );
+        dispatch_time_t timeout = DISPATCH_TIME_NOW;
+        if (timespec_timeout.tv_sec >= static_cast< int64_t >(9223372036ll))
+            timeout = DISPATCH_TIME_FOREVER;
+        else if (timespec_timeout.tv_sec > 0 || (timespec_timeout.tv_sec == 0 && timespec_timeout.tv_nsec > 1))
+            timeout = dispatch_walltime( &timespec_timeout, 0 );
         return dispatch_semaphore_wait(m_sem, timeout) == 0;
     }
 
-- 
2.43.0

