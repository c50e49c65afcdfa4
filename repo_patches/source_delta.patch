From e03c09881eb499a98e9b6c238ee9e8b1198cab39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:50 +0000
Subject: [PATCH 01/14] fix: removing a slot whose index is stale must not
 remove another slot

---
 signals.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/signals.hpp b/signals.hpp
index ada159b..b0ccbe9 100644
--- a/signals.hpp
+++ b/signals.hpp
@@ -1811,7 +1811,9 @@ namespace sig
             auto i = slot.index();
             auto& slots = m_Slots.write();
 
-            if (!slots.empty() && i < slots.size())
+            // The slot may already have been removed (by signal::disconnect in another thread),
+            // in which case its index is stale and may refer to another slot.
+            if (i < slots.size() && slots[i].get() == &slot)
             {
                 std::swap(slots[i], slots.back());
                 slots[i]->index() = i;
-- 
2.43.0


From d57b41d43eef1b56807dbbbebe5c7ac3b860987f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:50 +0000
Subject: [PATCH 02/14] fix: signal::disconnect must mark the removed slots as
 disconnected

---
 signals.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/signals.hpp b/signals.hpp
index b0ccbe9..bec28f6 100644
--- a/signals.hpp
+++ b/signals.hpp
@@ -1837,10 +1837,14 @@ namespace sig
                 auto& s = *slots[i];
                 if (s == slot)
                 {
+                    // Connections and running emissions must see that the slot is disconnected.
+                    if (s.state().disconnect())
+                    {
+                        ++count;
+                    }
                     std::swap(slots[i], slots.back());
                     slots[i]->index() = i;
                     slots.pop_back();
-                    ++count;
                 }
                 else
                 {
-- 
2.43.0


From 1aea626e167045bc99fb1a5e8fe545afb7f6a79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:50 +0000
Subject: [PATCH 03/14] fix: a slot must not receive arguments moved from by an
 earlier slot

---
 signals.hpp | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/signals.hpp b/signals.hpp
index bec28f6..5369b8c 100644
--- a/signals.hpp
+++ b/signals.hpp
@@ -1077,6 +1077,28 @@ namespace sig
         template<typename... T>
         using index_sequence_for = make_index_sequence<sizeof...(T)>;
 
+        // The arguments of a signal are passed to every slot. An argument that is passed
+        // by value is copied for each slot, so that a slot that moves from its parameter does
+        // not change what the next slot receives. References (and arguments that can't be
+        // copied) are forwarded.
+        template<typename Arg, bool = !std::is_reference<Arg>::value && std::is_copy_constructible<Arg>::value>
+        struct slot_arg
+        {
+            static Arg get(const Arg& arg)
+            {
+                return arg;
+            }
+        };
+
+        template<typename Arg>
+        struct slot_arg<Arg, false>
+        {
+            static Arg&& get(traits::remove_reference_t<Arg>& arg)
+            {
+                return static_cast<Arg&&>(arg);
+            }
+        };
+
         // The slot_iterator is a wrapper for the actual container that 
         // contains a list of slots to be invoked. When the slot_iterator
         // is dereferenced, it must invoke the slot that is referenced by the 
@@ -1139,7 +1161,7 @@ namespace sig
             constexpr opt::optional<T> do_invoke(index_sequence<Is...>)
             {
                 // Unpack tuple arguments and invoke slot.
-                return (**m_Iter)(std::forward<Args>(std::get<Is>(m_Args))...);
+                return (**m_Iter)(slot_arg<Args>::get(std::get<Is>(m_Args))...);
             }
 
             InputIterator m_Iter;
@@ -1203,7 +1225,7 @@ namespace sig
             constexpr opt::optional<void> do_invoke(index_sequence<Is...>)
             {
                 // Unpack tuple arguments and invoke slot.
-                (**m_Iter)(std::forward<Args>(std::get<Is>(m_Args))...);
+                (**m_Iter)(slot_arg<Args>::get(std::get<Is>(m_Args))...);
                 return {};
             }
 
-- 
2.43.0


From e36464b9790199f52f28d38e3edf268f5754541c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:23 +0000
Subject: [PATCH 04/14] fix: slots must compare equal however their callable
 was passed

---
 signals.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/signals.hpp b/signals.hpp
index 5369b8c..589ff6c 100644
--- a/signals.hpp
+++ b/signals.hpp
@@ -1281,9 +1281,11 @@ namespace sig
         {}
 
         // Slot that takes a function object.
+        // The type of the implementation must not depend on how the function object is passed
+        // (lvalue, rvalue, const), otherwise equal function objects would not compare equal.
         template<typename Func>
         slot(Func&& func, detail::signal_base* signal = nullptr)
-            : m_pImpl{ new detail::slot_func<R, Func, Args...>(std::forward<Func>(func)) }
+            : m_pImpl{ new detail::slot_func<R, detail::traits::decay_t<Func>, Args...>(detail::traits::decay_t<Func>(std::forward<Func>(func))) }
             , m_pSignal{ signal }
         {}
 
@@ -1291,14 +1293,16 @@ namespace sig
         template<typename Func, typename Ptr>
         slot(Func&& func, Ptr&& ptr, detail::signal_base* signal = nullptr,
             detail::traits::enable_if_t<!detail::traits::is_weak_ptr_convertable<Ptr>::value, void*> = nullptr)
-            : m_pImpl{ new detail::slot_pmf<R, Func, Ptr, Args...>(std::forward<Func>(func), std::forward<Ptr>(ptr)) }
+            : m_pImpl{ new detail::slot_pmf<R, detail::traits::decay_t<Func>, detail::traits::decay_t<Ptr>, Args...>(
+                detail::traits::decay_t<Func>(std::forward<Func>(func)), detail::traits::decay_t<Ptr>(std::forward<Ptr>(ptr))) }
             , m_pSignal{ signal }
         {}
 
         template<typename Func, typename Ptr>
         slot(Func&& func, Ptr&& ptr, detail::signal_base* signal = nullptr,
             detail::traits::enable_if_t<detail::traits::is_weak_ptr_convertable<Ptr>::value, void*> = nullptr)
-            : m_pImpl{ new detail::slot_pmf_tracked<R, Func, decltype(to_weak(std::forward<Ptr>(ptr))), Args...>(std::forward<Func>(func), to_weak(std::forward<Ptr>(ptr))) }
+            : m_pImpl{ new detail::slot_pmf_tracked<R, detail::traits::decay_t<Func>, decltype(to_weak(std::forward<Ptr>(ptr))), Args...>(
+                detail::traits::decay_t<Func>(std::forward<Func>(func)), to_weak(std::forward<Ptr>(ptr))) }
             , m_pSignal{ signal }
         {}
 
-- 
2.43.0


From 464a0dfd4c382cb4c3482a636dcf558edd71e3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:26 +0000
Subject: [PATCH 05/14] fix: copying a slot recursed for ever, crashed if
 empty, and did not compile as assignment

---
 signals.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/signals.hpp b/signals.hpp
index 589ff6c..3d11a50 100644
--- a/signals.hpp
+++ b/signals.hpp
@@ -1283,7 +1283,8 @@ namespace sig
         // Slot that takes a function object.
         // The type of the implementation must not depend on how the function object is passed
         // (lvalue, rvalue, const), otherwise equal function objects would not compare equal.
-        template<typename Func>
+        template<typename Func,
+            typename = detail::traits::enable_if_t<!std::is_base_of<detail::slot_base, detail::traits::remove_cvref_t<Func>>::value>>
         slot(Func&& func, detail::signal_base* signal = nullptr)
             : m_pImpl{ new detail::slot_func<R, detail::traits::decay_t<Func>, Args...>(detail::traits::decay_t<Func>(std::forward<Func>(func))) }
             , m_pSignal{ signal }
@@ -1308,7 +1309,7 @@ namespace sig
 
         // Copy constructor.
         slot(const slot& copy, detail::signal_base* signal = nullptr)
-            : m_pImpl{ copy.m_pImpl->clone() }
+            : m_pImpl{ copy.m_pImpl ? copy.m_pImpl->clone() : nullptr }
             , m_pSignal{ signal ? signal : copy.m_pSignal }
         {}
 
@@ -1331,7 +1332,7 @@ namespace sig
         {
             if (&other != this)
             {
-                m_pImpl.swap(other.m_pImpl->clone());
+                m_pImpl.reset(other.m_pImpl ? other.m_pImpl->clone() : nullptr);
                 m_pSignal = other.m_pSignal;
             }
             return *this;
@@ -1714,6 +1715,9 @@ namespace sig
         // Connect a previously created slot
         connection connect(const slot_type& slot)
         {
+            // There is nothing to connect if the slot is empty.
+            if (!slot) return {};
+
             auto s = slot_ptr_type(new slot_type(slot, static_cast<detail::signal_base*>(this)));
             connection c(s);
             add_slot(std::move(s));
-- 
2.43.0


From 7564a9438902775f822bcfdc8a71afefeedb9fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:55 +0000
Subject: [PATCH 06/14] fix: slots bound to a shared or weak pointer must be
 comparable

---
 signals.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/signals.hpp b/signals.hpp
index 3d11a50..c099af4 100644
--- a/signals.hpp
+++ b/signals.hpp
@@ -437,6 +437,16 @@ namespace sig
             }
         };
 
+        // Weak pointers define no equality operator. They are equal if they track the same object.
+        template<typename T>
+        struct try_equals<std::weak_ptr<T>, false>
+        {
+            static bool equals(const std::weak_ptr<T>& w1, const std::weak_ptr<T>& w2)
+            {
+                return !w1.owner_before(w2) && !w2.owner_before(w1);
+            }
+        };
+
         // Primary template
         // Invokes a function object.
         // @see https://en.cppreference.com/w/cpp/types/result_of
-- 
2.43.0


From a46d515cf2c38748f5082356efe276937f033034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:59 +0000
Subject: [PATCH 07/14] fix: a slot whose object expired must remain removable
 through its connection

---
 signals.hpp | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/signals.hpp b/signals.hpp
index c099af4..f0f8a30 100644
--- a/signals.hpp
+++ b/signals.hpp
@@ -974,14 +974,10 @@ namespace sig
 
             virtual opt::optional<R> operator()(Args&&... args) override
             {
+                // Don't disconnect the slot if the object has expired: the slot would stay in
+                // the signal and could not be removed through its connection anymore.
                 auto sp = m_Ptr.lock();
-                if (!sp)
-                {
-                    this->disconnect();
-                    return {};
-                }
-
-                if (this->connected())
+                if (sp && this->connected())
                 {
                     return invoke_helper<function_type>::call(m_Func, sp, std::forward<Args>(args)...);
                 }
@@ -1035,13 +1031,10 @@ namespace sig
 
             virtual opt::optional<void> operator()(Args&&... args) override
             {
+                // Don't disconnect the slot if the object has expired: the slot would stay in
+                // the signal and could not be removed through its connection anymore.
                 auto sp = m_Ptr.lock();
-                if (!sp)
-                {
-                    this->disconnect();
-                }
-
-                if (this->connected())
+                if (sp && this->connected())
                 {
                     invoke_helper<function_type>::call(m_Func, sp, std::forward<Args>(args)...);
                 }
-- 
2.43.0


From 768f9511a88b22f006317fd6dbedb25f8fc00809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:02 +0000
Subject: [PATCH 08/14] fix: writing in place to a copy-on-write value raced
 with readers that released it

---
 signals.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/signals.hpp b/signals.hpp
index f0f8a30..7346b4a 100644
--- a/signals.hpp
+++ b/signals.hpp
@@ -662,6 +662,12 @@ namespace sig
                     // creating a new instance of the stored object.
                     *this = cow_ptr(new T(*m_Ptr));
                 }
+                else
+                {
+                    // use_count() does not synchronize with the threads that released
+                    // their reference: order their reads before the writes that follow.
+                    std::atomic_thread_fence(std::memory_order_acquire);
+                }
             }
 
             pointer_type m_Ptr;
-- 
2.43.0


From 845e11ec312bab1d3b1d35f951e5de89d91167e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:39 +0000
Subject: [PATCH 09/14] fix: moving a signal lost its connections, left the
 source unusable and returned nothing

---
 signals.hpp | 37 +++++++++++++++++++++++++++++--------
 1 file changed, 29 insertions(+), 8 deletions(-)

diff --git a/signals.hpp b/signals.hpp
index 7346b4a..9557831 100644
--- a/signals.hpp
+++ b/signals.hpp
@@ -1704,21 +1704,32 @@ namespace sig
 
         // Moveable.
         signal(signal&& other) noexcept
-            : m_Blocked(other.m_Blocked.load())
+            : signal()
         {
-            lock_type lock(other.m_SlotMutex);
-            m_Slots = std::move(other.m_Slots);
+            m_Blocked = other.m_Blocked.load();
+            {
+                lock_type lock(other.m_SlotMutex);
+                std::swap(m_Slots, other.m_Slots);
+            }
+            adopt_slots();
         }
 
         // Move assignable.
         signal& operator=(signal&& other) noexcept
         {
-            lock_type lock1(m_SlotMutex, std::defer_lock);
-            lock_type lock2(other.m_SlotMutex, std::defer_lock);
-            std::lock(lock1, lock2);
+            if (this != &other)
+            {
+                // The previous slots of this signal go away with tmp.
+                signal tmp(std::move(other));
+                {
+                    lock_type lock(m_SlotMutex);
+                    std::swap(m_Slots, tmp.m_Slots);
+                }
+                adopt_slots();
+                m_Blocked = tmp.m_Blocked.load();
+            }
 
-            m_Slots = std::move(other.m_Slots);
-            m_Blocked = other.m_Blocked.load();
+            return *this;
         }
 
         // Connect a previously created slot
@@ -1843,6 +1854,16 @@ namespace sig
             slots.push_back(std::move(s));
         }
 
+        // Slots that were moved from another signal must be removed from this one
+        // when they are disconnected.
+        void adopt_slots() noexcept
+        {
+            for (auto& s : m_Slots.read())
+            {
+                s->m_pSignal = this;
+            }
+        }
+
         // Remove a slot at the given index.
         virtual void remove_slot(detail::slot_base& slot) override
         {
-- 
2.43.0


From 95a7f195bd7a8835d492b542f7703792c56bae54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:03 +0000
Subject: [PATCH 10/14] fix: signal::disconnect deadlocked if destroying a
 function object uses the signal

---
 signals.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/signals.hpp b/signals.hpp
index 9557831..96e16d1 100644
--- a/signals.hpp
+++ b/signals.hpp
@@ -1887,8 +1887,12 @@ namespace sig
         template<typename Func>
         size_t erase(const slot<Func>& slot)
         {
+            // The removed slots are destroyed after the lock is released
+            // (destroying a function object may use the signal).
+            list_type removed;
             lock_type lock(m_SlotMutex);
             auto& slots = m_Slots.write();
+            removed.reserve(slots.size());
 
             std::size_t count = 0;   // The number of slots that were removed.
             std::size_t i = 0;       // Slot index
@@ -1904,6 +1908,7 @@ namespace sig
                     }
                     std::swap(slots[i], slots.back());
                     slots[i]->index() = i;
+                    removed.push_back(std::move(slots.back()));
                     slots.pop_back();
                 }
                 else
-- 
2.43.0


From e89a2dcee73227ff14a0da5dc586ebcf7920e437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:06 +0000
Subject: [PATCH 11/14] fix: slots must be disconnected when their signal is
 destroyed

---
 signals.hpp | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/signals.hpp b/signals.hpp
index 96e16d1..d0988e8 100644
--- a/signals.hpp
+++ b/signals.hpp
@@ -1387,6 +1387,8 @@ namespace sig
 
         bool disconnect() noexcept
         {
+            // The signal can't be destroyed before the slot is removed from it.
+            std::lock_guard<std::mutex> lock(m_SignalMutex);
             if (m_pImpl && m_pSignal && m_pImpl->disconnect() )
             {
                 m_pSignal->remove_slot(*this);
@@ -1440,8 +1442,18 @@ namespace sig
             return *m_pImpl;
         }
 
+        // Disconnect the slot from a signal that is being destroyed or has removed the slot.
+        // Waits for a disconnect() in another thread that is still using the signal.
+        void release() noexcept
+        {
+            std::lock_guard<std::mutex> lock(m_SignalMutex);
+            m_pSignal = nullptr;
+            m_pImpl->disconnect();
+        }
+
         std::unique_ptr<impl> m_pImpl;              // Pointer to implementation
         detail::signal_base* m_pSignal;             // The signal this slot belongs to.
+        std::mutex m_SignalMutex;                   // Guards m_pSignal.
     };
 
     // Shared pointer to a slot.
@@ -1695,7 +1707,16 @@ namespace sig
             : m_Blocked(false)
             , m_Slots(new list_type())
         {}
-        ~signal() = default;
+        ~signal()
+        {
+            // The slots may outlive the signal if they are used by a connection
+            // or by an emission that is still running.
+            const auto slots = read_slots();
+            for (auto& s : slots.read())
+            {
+                s->release();
+            }
+        }
 
         // Not copyable.
         signal(const signal&) = delete;
@@ -1860,6 +1881,7 @@ namespace sig
         {
             for (auto& s : m_Slots.read())
             {
+                std::lock_guard<std::mutex> lock(s->m_SignalMutex);
                 s->m_pSignal = this;
             }
         }
@@ -1916,6 +1938,12 @@ namespace sig
                     ++i;
                 }
             }
+
+            lock.unlock();
+            for (auto& s : removed)
+            {
+                s->release();
+            }
             return count;
         }
 
-- 
2.43.0


From 0ad6d5c15e04a2923293162434b6f6164a974df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:46 +0000
Subject: [PATCH 12/14] fix: a connection_blocker must block its slot until it
 is destroyed, also if others are

---
 signals.hpp | 35 ++++++++++++++++++++++++++++++++---
 1 file changed, 32 insertions(+), 3 deletions(-)

diff --git a/signals.hpp b/signals.hpp
index d0988e8..90eb107 100644
--- a/signals.hpp
+++ b/signals.hpp
@@ -697,6 +697,7 @@ namespace sig
                 : m_Index(0)
                 , m_Connected(true)
                 , m_Blocked(false)
+                , m_Blockers(0)
             {}
 
             // Atomic variables are not CopyConstructible.
@@ -705,12 +706,14 @@ namespace sig
                 : m_Index(s.m_Index)
                 , m_Connected(s.m_Connected.load())
                 , m_Blocked(s.m_Blocked.load())
+                , m_Blockers(0)
             {}
 
             slot_state(slot_state&& s) noexcept
                 : m_Index(s.m_Index)
                 , m_Connected(s.m_Connected.load())
                 , m_Blocked(s.m_Blocked.load())
+                , m_Blockers(0)
             {}
 
             virtual ~slot_state() = default;
@@ -745,7 +748,7 @@ namespace sig
 
             bool blocked() const noexcept
             {
-                return m_Blocked;
+                return m_Blocked || m_Blockers != 0;
             }
 
             void block() noexcept
@@ -758,6 +761,17 @@ namespace sig
                 m_Blocked = false;
             }
 
+            // The slot is blocked as long as it has a connection_blocker.
+            void add_blocker() noexcept
+            {
+                ++m_Blockers;
+            }
+
+            void remove_blocker() noexcept
+            {
+                --m_Blockers;
+            }
+
             std::size_t& index()
             {
                 return m_Index;
@@ -767,6 +781,7 @@ namespace sig
             std::size_t m_Index;
             std::atomic_bool m_Connected;
             std::atomic_bool m_Blocked;
+            std::atomic<std::size_t> m_Blockers;
         };
 
         // Base class for slot implementations.
@@ -1255,6 +1270,8 @@ namespace sig
         public:
             virtual void block() = 0;
             virtual void unblock() = 0;
+            virtual void add_blocker() = 0;
+            virtual void remove_blocker() = 0;
             virtual bool connected() const noexcept = 0;
             virtual bool blocked() const noexcept = 0;
             virtual bool disconnect() = 0;
@@ -1415,6 +1432,18 @@ namespace sig
                 m_pImpl->unblock();
         }
 
+        void add_blocker() noexcept
+        {
+            if (m_pImpl)
+                m_pImpl->add_blocker();
+        }
+
+        void remove_blocker() noexcept
+        {
+            if (m_pImpl)
+                m_pImpl->remove_blocker();
+        }
+
         // Invoke the slot.
         opt::optional<R> operator()(Args&&... args)
         {
@@ -1502,7 +1531,7 @@ namespace sig
         {
             if (auto s = m_Slot.lock())
             {
-                s->block();
+                s->add_blocker();
             }
         }
 
@@ -1510,7 +1539,7 @@ namespace sig
         {
             if (auto s = m_Slot.lock())
             {
-                s->unblock();
+                s->remove_blocker();
             }
         }
 
-- 
2.43.0


From 1b4a2d19416ba60e8c70d9a4af661f4813badd56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:19 +0000
Subject: [PATCH 13/14] fix: running out of memory while copying the slots must
 not terminate the program

cow_ptr(T*) and cow_ptr::operator=(T*) were noexcept although they allocate the
control block of the shared pointer: if that failed during signal::connect or
signal::disconnect the program was terminated instead of bad_alloc reaching the caller.
---
 signals.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/signals.hpp b/signals.hpp
index 90eb107..f804920 100644
--- a/signals.hpp
+++ b/signals.hpp
@@ -528,7 +528,7 @@ namespace sig
             constexpr cow_ptr() noexcept = default;
             ~cow_ptr() = default;
 
-            constexpr explicit cow_ptr(T* other) noexcept
+            constexpr explicit cow_ptr(T* other)
                 : m_Ptr(other)
             {}
 
@@ -559,7 +559,7 @@ namespace sig
             }
 
             // Assign from other value.
-            cow_ptr& operator=(T* other) noexcept
+            cow_ptr& operator=(T* other)
             {
                 m_Ptr = pointer_type(other);
                 return *this;
-- 
2.43.0


From f78efeb98b0c9d1f2c59d14de1bceb113163caf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:05 +0000
Subject: [PATCH 14/14] fix: move assignment of a connection_blocker to itself
 released the block twice

The blocker released its slot but still referred to it afterwards (or lost it), so
that other blockers of the same slot ended early.
---
 signals.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/signals.hpp b/signals.hpp
index f804920..7d7bbca 100644
--- a/signals.hpp
+++ b/signals.hpp
@@ -1513,8 +1513,12 @@ namespace sig
         connection_blocker& operator=(const connection_blocker&) = delete;
         connection_blocker& operator=(connection_blocker&& c) noexcept
         {
-            release();
-            m_Slot = std::move(c.m_Slot);
+            if (this != &c)
+            {
+                release();
+                m_Slot = std::move(c.m_Slot);
+            }
+
             return *this;
         }
 
-- 
2.43.0

