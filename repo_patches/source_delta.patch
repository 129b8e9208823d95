From 98af92488ba9295e7a47676a910e7b7502f4010d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:44 +0000
Subject: [PATCH 01/21] fix: circular_buffer_space_optimized insertion of a
 huge count overflowed the capacity computation

---
 include/boost/circular_buffer/space_optimized.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/circular_buffer/space_optimized.hpp b/include/boost/circular_buffer/space_optimized.hpp
index 21681fd..d5a8361 100644
--- a/include/boost/circular_buffer/space_optimized.hpp
+++ b/include/boost/circular_buffer/space_optimized.hpp
@@ -1541,7 +1541,7 @@ private:
 
     /*! INTERNAL ONLY */
     void check_low_capacity(size_type n = 1) {
-        size_type new_size = size() + n;
+        size_type new_size = size() + (std::min)(n, reserve()); // only the items which fit can be inserted
         size_type new_capacity = circular_buffer<T, Alloc>::capacity();
         if (new_size > new_capacity) {
             if (new_capacity == 0)
-- 
2.43.0


From 6bd4aa7fbc6dc0a6de14f5df85ecbb8b52948d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:44 +0000
Subject: [PATCH 02/21] fix: circular_buffer_space_optimized insert/rinsert of
 a single-pass range lost its items

---
 .../boost/circular_buffer/space_optimized.hpp | 46 +++++++++++++++++++
 1 file changed, 46 insertions(+)

diff --git a/include/boost/circular_buffer/space_optimized.hpp b/include/boost/circular_buffer/space_optimized.hpp
index d5a8361..106b2c3 100644
--- a/include/boost/circular_buffer/space_optimized.hpp
+++ b/include/boost/circular_buffer/space_optimized.hpp
@@ -1631,6 +1631,28 @@ private:
     /*! INTERNAL ONLY */
     template <class Iterator>
     void insert(const iterator& pos, Iterator first, Iterator last, const false_type&) {
+        BOOST_CB_IS_CONVERTIBLE(Iterator, value_type); // check for invalid iterator type
+#if BOOST_WORKAROUND(BOOST_BORLANDC, BOOST_TESTED_AT(0x581))
+        insert(pos, first, last, std::iterator_traits<Iterator>::iterator_category());
+#else
+        insert(pos, first, last, BOOST_DEDUCED_TYPENAME std::iterator_traits<Iterator>::iterator_category());
+#endif
+    }
+
+    /*! INTERNAL ONLY */
+    template <class InputIterator>
+    void insert(iterator pos, InputIterator first, InputIterator last, const std::input_iterator_tag&) {
+        // the range can be traversed only once => the number of the inserted items is not known in advance
+        if (!full() || pos != begin()) {
+            for (; first != last; ++pos) {
+                pos = insert(pos, *first++);
+            }
+        }
+    }
+
+    /*! INTERNAL ONLY */
+    template <class ForwardIterator>
+    void insert(const iterator& pos, ForwardIterator first, ForwardIterator last, const std::forward_iterator_tag&) {
         size_type index = pos - begin();
         check_low_capacity(std::distance(first, last));
         circular_buffer<T, Alloc>::insert(begin() + index, first, last);
@@ -1645,6 +1667,30 @@ private:
     /*! INTERNAL ONLY */
     template <class Iterator>
     void rinsert(const iterator& pos, Iterator first, Iterator last, const false_type&) {
+        BOOST_CB_IS_CONVERTIBLE(Iterator, value_type); // check for invalid iterator type
+#if BOOST_WORKAROUND(BOOST_BORLANDC, BOOST_TESTED_AT(0x581))
+        rinsert(pos, first, last, std::iterator_traits<Iterator>::iterator_category());
+#else
+        rinsert(pos, first, last, BOOST_DEDUCED_TYPENAME std::iterator_traits<Iterator>::iterator_category());
+#endif
+    }
+
+    /*! INTERNAL ONLY */
+    template <class InputIterator>
+    void rinsert(iterator pos, InputIterator first, InputIterator last, const std::input_iterator_tag&) {
+        // the range can be traversed only once => the number of the inserted items is not known in advance
+        if (!full() || pos != end()) {
+            for (; first != last; ++pos) {
+                pos = rinsert(pos, *first++);
+                if (pos == end())
+                    break;
+            }
+        }
+    }
+
+    /*! INTERNAL ONLY */
+    template <class ForwardIterator>
+    void rinsert(const iterator& pos, ForwardIterator first, ForwardIterator last, const std::forward_iterator_tag&) {
         size_type index = pos - begin();
         check_low_capacity(std::distance(first, last));
         circular_buffer<T, Alloc>::rinsert(begin() + index, first, last);
-- 
2.43.0


From cfe0ab3ad391be00e90ba72b9a485f852c6c3b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:44 +0000
Subject: [PATCH 03/21] fix: circular_buffer_space_optimized::assign(capacity,
 range) changed the capacity before it could fail

---
 include/boost/circular_buffer/space_optimized.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/circular_buffer/space_optimized.hpp b/include/boost/circular_buffer/space_optimized.hpp
index 106b2c3..7230538 100644
--- a/include/boost/circular_buffer/space_optimized.hpp
+++ b/include/boost/circular_buffer/space_optimized.hpp
@@ -724,8 +724,8 @@ public:
     */
     template <class InputIterator>
     void assign(capacity_type capacity_ctrl, InputIterator first, InputIterator last) {
-       m_capacity_ctrl = capacity_ctrl;
        circular_buffer<T, Alloc>::assign(capacity_ctrl, first, last);
+       m_capacity_ctrl = capacity_ctrl;
     }
 
     //! Swap the contents of two space-optimized circular-buffers.
-- 
2.43.0


From cb928c2051952f6cc0ff600bffb8b71a84de4da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:44 +0000
Subject: [PATCH 04/21] fix: failed filling constructor deallocated with the
 wrong element count

---
 include/boost/circular_buffer/base.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/circular_buffer/base.hpp b/include/boost/circular_buffer/base.hpp
index 4744154..d57991a 100644
--- a/include/boost/circular_buffer/base.hpp
+++ b/include/boost/circular_buffer/base.hpp
@@ -2501,7 +2501,7 @@ private:
         BOOST_TRY {
             cb_details::uninitialized_fill_n_with_alloc(m_buff, size(), item, alloc());
         } BOOST_CATCH(...) {
-            deallocate(m_buff, size());
+            deallocate(m_buff, buffer_capacity);
             BOOST_RETHROW
         }
         BOOST_CATCH_END
-- 
2.43.0


From 51cc6276a1c96970c6ee3b6de6919c786ec41c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:44 +0000
Subject: [PATCH 05/21] fix: failed constructor from a single-pass range leaked
 its elements and memory

---
 include/boost/circular_buffer/base.hpp | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/include/boost/circular_buffer/base.hpp b/include/boost/circular_buffer/base.hpp
index d57991a..babb69b 100644
--- a/include/boost/circular_buffer/base.hpp
+++ b/include/boost/circular_buffer/base.hpp
@@ -2576,16 +2576,22 @@ private:
         m_size = 0;
         if (buffer_capacity == 0)
             return;
-        while (first != last && !full()) {
-            boost::allocator_construct(alloc(), boost::to_address(m_last), *first++);
-            increment(m_last);
-            ++m_size;
-        }
-        while (first != last) {
-            replace(m_last, *first++);
-            increment(m_last);
-            m_first = m_last;
+        BOOST_TRY {
+            while (first != last && !full()) {
+                boost::allocator_construct(alloc(), boost::to_address(m_last), *first++);
+                increment(m_last);
+                ++m_size;
+            }
+            while (first != last) {
+                replace(m_last, *first++);
+                increment(m_last);
+                m_first = m_last;
+            }
+        } BOOST_CATCH(...) {
+            destroy();
+            BOOST_RETHROW
         }
+        BOOST_CATCH_END
     }
 
     /*! INTERNAL ONLY */
-- 
2.43.0


From 5e2956bdf3456115a449edfeeb0285af577d104d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:44 +0000
Subject: [PATCH 06/21] fix: failed rinsert at begin() exposed unconstructed
 elements

---
 include/boost/circular_buffer/base.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/boost/circular_buffer/base.hpp b/include/boost/circular_buffer/base.hpp
index babb69b..34a60a3 100644
--- a/include/boost/circular_buffer/base.hpp
+++ b/include/boost/circular_buffer/base.hpp
@@ -2944,9 +2944,10 @@ private:
                 for (; ii > 0; --ii, increment(p))
                     boost::allocator_construct(alloc(), boost::to_address(p), *wrapper());
             } BOOST_CATCH(...) {
-                size_type constructed = ii < construct ? construct - ii : 0;
-                m_last = add(m_last, constructed);
-                m_size += constructed;
+                for (; ii < construct; ++ii) { // the constructed items do not adjoin the first element
+                    decrement(p);
+                    destroy_item(p);
+                }
                 BOOST_RETHROW
             }
             BOOST_CATCH_END
-- 
2.43.0


From 06203fd2cdcdc88ac756ed01da5448b4823d5d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:44 +0000
Subject: [PATCH 07/21] fix: strong exception guarantee of
 circular_buffer_space_optimized::(r)set_capacity

---
 .../boost/circular_buffer/space_optimized.hpp | 60 ++++++++++---------
 1 file changed, 31 insertions(+), 29 deletions(-)

diff --git a/include/boost/circular_buffer/space_optimized.hpp b/include/boost/circular_buffer/space_optimized.hpp
index 7230538..32f51b3 100644
--- a/include/boost/circular_buffer/space_optimized.hpp
+++ b/include/boost/circular_buffer/space_optimized.hpp
@@ -223,12 +223,11 @@ public:
             <code>\link resize() resize(size_type, const_reference)\endlink</code>
     */
     void set_capacity(const capacity_type& capacity_ctrl) {
+        circular_buffer<T, Alloc>::set_capacity(adjust_capacity(capacity_ctrl));
         m_capacity_ctrl = capacity_ctrl;
-        if (capacity_ctrl < size()) {
-            iterator e = end();
-            circular_buffer<T, Alloc>::erase(e - (size() - capacity_ctrl), e);
-        }
-        adjust_min_capacity();
+#if BOOST_CB_ENABLE_DEBUG
+        this->invalidate_iterators_except(end());
+#endif
     }
 
     //! Change the size of the <code>circular_buffer_space_optimized</code>.
@@ -294,12 +293,11 @@ public:
             <code>\link rresize() rresize(size_type, const_reference)\endlink</code>
     */
     void rset_capacity(const capacity_type& capacity_ctrl) {
+        circular_buffer<T, Alloc>::rset_capacity(adjust_capacity(capacity_ctrl));
         m_capacity_ctrl = capacity_ctrl;
-        if (capacity_ctrl < size()) {
-            iterator b = begin();
-            circular_buffer<T, Alloc>::rerase(b, b + (size() - capacity_ctrl));
-        }
-        adjust_min_capacity();
+#if BOOST_CB_ENABLE_DEBUG
+        this->invalidate_iterators_except(end());
+#endif
     }
 
     //! Change the size of the <code>circular_buffer_space_optimized</code>.
@@ -1523,22 +1521,35 @@ private:
 // Helper methods
 
     /*! INTERNAL ONLY */
-    void adjust_min_capacity() {
-        if (m_capacity_ctrl.min_capacity() > circular_buffer<T, Alloc>::capacity())
-            circular_buffer<T, Alloc>::set_capacity(m_capacity_ctrl.min_capacity());
-        else
-            check_high_capacity();
+    size_type adjust_capacity(const capacity_type& capacity_ctrl) const {
+        if (capacity_ctrl.min_capacity() > circular_buffer<T, Alloc>::capacity())
+            return capacity_ctrl.min_capacity();
+        return reduced_capacity(capacity_ctrl, (std::min)(size(), capacity_ctrl.capacity()));
     }
 
     /*! INTERNAL ONLY */
-    size_type ensure_reserve(size_type new_capacity, size_type buffer_size) const {
+    static size_type ensure_reserve(const capacity_type& capacity_ctrl, size_type new_capacity,
+        size_type buffer_size) {
         if (buffer_size + new_capacity / 5 >= new_capacity)
             new_capacity *= 2; // ensure at least 20% reserve
-        if (new_capacity > m_capacity_ctrl)
-            return m_capacity_ctrl;
+        if (new_capacity > capacity_ctrl)
+            return capacity_ctrl;
         return new_capacity;
     }
 
+    /*! INTERNAL ONLY */
+    size_type reduced_capacity(const capacity_type& capacity_ctrl, size_type buffer_size) const {
+        size_type new_capacity = circular_buffer<T, Alloc>::capacity();
+        while (new_capacity / 3 >= buffer_size) { // (new_capacity / 3) -> avoid oscillations
+            new_capacity /= 2;
+            if (new_capacity <= capacity_ctrl.min_capacity()) {
+                new_capacity = capacity_ctrl.min_capacity();
+                break;
+            }
+        }
+        return ensure_reserve(capacity_ctrl, new_capacity, buffer_size);
+    }
+
     /*! INTERNAL ONLY */
     void check_low_capacity(size_type n = 1) {
         size_type new_size = size() + (std::min)(n, reserve()); // only the items which fit can be inserted
@@ -1548,7 +1559,7 @@ private:
                 new_capacity = 1;
             for (; new_size > new_capacity; new_capacity *= 2) {}
             circular_buffer<T, Alloc>::set_capacity(
-                ensure_reserve(new_capacity, new_size));
+                ensure_reserve(m_capacity_ctrl, new_capacity, new_size));
         }
 #if BOOST_CB_ENABLE_DEBUG
         this->invalidate_iterators_except(end());
@@ -1557,16 +1568,7 @@ private:
 
     /*! INTERNAL ONLY */
     void check_high_capacity() {
-        size_type new_capacity = circular_buffer<T, Alloc>::capacity();
-        while (new_capacity / 3 >= size()) { // (new_capacity / 3) -> avoid oscillations
-            new_capacity /= 2;
-            if (new_capacity <= m_capacity_ctrl.min_capacity()) {
-                new_capacity = m_capacity_ctrl.min_capacity();
-                break;
-            }
-        }
-        circular_buffer<T, Alloc>::set_capacity(
-            ensure_reserve(new_capacity, size()));
+        circular_buffer<T, Alloc>::set_capacity(reduced_capacity(m_capacity_ctrl, size()));
 #if BOOST_CB_ENABLE_DEBUG
         this->invalidate_iterators_except(end());
 #endif
-- 
2.43.0


From 196e17484f2e84513456017ece1d80d2ab025bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:45 +0000
Subject: [PATCH 08/21] fix: strong exception guarantee of
 circular_buffer_space_optimized copy assignment

---
 include/boost/circular_buffer/space_optimized.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/circular_buffer/space_optimized.hpp b/include/boost/circular_buffer/space_optimized.hpp
index 32f51b3..caaa7de 100644
--- a/include/boost/circular_buffer/space_optimized.hpp
+++ b/include/boost/circular_buffer/space_optimized.hpp
@@ -561,7 +561,8 @@ public:
     circular_buffer_space_optimized<T, Alloc>& operator = (const circular_buffer_space_optimized<T, Alloc>& cb) {
         if (this == &cb)
             return *this;
-        circular_buffer<T, Alloc>::assign(cb.begin(), cb.end());
+        circular_buffer<T, Alloc> buff(cb.begin(), cb.end(), get_allocator());
+        circular_buffer<T, Alloc>::swap(buff);
         m_capacity_ctrl = cb.m_capacity_ctrl;
         return *this;
     }
-- 
2.43.0


From 6bbbd26f04897a27b0c547f6ec1f55d906fc8ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:25 +0000
Subject: [PATCH 09/21] fix: is_linearized() was false for some empty buffers,
 even right after linearize()

---
 include/boost/circular_buffer/base.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/circular_buffer/base.hpp b/include/boost/circular_buffer/base.hpp
index 34a60a3..4209a10 100644
--- a/include/boost/circular_buffer/base.hpp
+++ b/include/boost/circular_buffer/base.hpp
@@ -708,7 +708,7 @@ public:
              Constant (in the size of the <code>circular_buffer</code>).
         \sa <code>linearize()</code>, <code>array_one()</code>, <code>array_two()</code>
     */
-    bool is_linearized() const BOOST_NOEXCEPT { return m_first < m_last || m_last == m_buff; }
+    bool is_linearized() const BOOST_NOEXCEPT { return m_first < m_last || m_last == m_buff || empty(); }
 
     //! Rotate elements in the <code>circular_buffer</code>.
     /*!
-- 
2.43.0


From 6aa40f18314171c53f89591f241f0a7a49c17754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:25 +0000
Subject: [PATCH 10/21] fix: rotate() of a full buffer did not compile with an
 allocator whose pointer is a class type

---
 include/boost/circular_buffer/base.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/circular_buffer/base.hpp b/include/boost/circular_buffer/base.hpp
index 4209a10..78c5f35 100644
--- a/include/boost/circular_buffer/base.hpp
+++ b/include/boost/circular_buffer/base.hpp
@@ -741,7 +741,7 @@ public:
         BOOST_CB_ASSERT(new_begin.is_valid(this)); // check for uninitialized or invalidated iterator
         BOOST_CB_ASSERT(new_begin.m_it != 0);      // check for iterator pointing to end()
         if (full()) {
-            m_first = m_last = const_cast<pointer>(new_begin.m_it);
+            m_first = m_last = add(m_first, new_begin - begin());
         } else {
             difference_type m = end() - new_begin;
             difference_type n = new_begin - begin();
-- 
2.43.0


From e25f30ebe9b26dff4d867d5ae62db9f132905d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:07 +0000
Subject: [PATCH 11/21] fix: an element was left alive when advancing the
 source of a copied range failed

---
 include/boost/circular_buffer/details.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/circular_buffer/details.hpp b/include/boost/circular_buffer/details.hpp
index d6d48f3..ca497f1 100644
--- a/include/boost/circular_buffer/details.hpp
+++ b/include/boost/circular_buffer/details.hpp
@@ -427,7 +427,7 @@ template<class InputIterator, class ForwardIterator, class Alloc>
 inline ForwardIterator uninitialized_copy(InputIterator first, InputIterator last, ForwardIterator dest, Alloc& a) {
     ForwardIterator next = dest;
     BOOST_TRY {
-        for (; first != last; ++first, ++dest)
+        for (; first != last; ++dest, ++first) // the item at dest has to be taken into account if ++first throws
             boost::allocator_construct(a, boost::to_address(dest), *first);
     } BOOST_CATCH(...) {
         for (; next != dest; ++next)
-- 
2.43.0


From 5922df4fd244df5306b0e1d395943167b46cf06a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:05 +0000
Subject: [PATCH 12/21] fix: elements with a throwing move assignment were
 moved and could lose their value

---
 include/boost/circular_buffer/base.hpp    | 22 +++++++++++-----------
 include/boost/circular_buffer/details.hpp | 23 +++++++++++++++++++++++
 2 files changed, 34 insertions(+), 11 deletions(-)

diff --git a/include/boost/circular_buffer/base.hpp b/include/boost/circular_buffer/base.hpp
index 78c5f35..bc5521e 100644
--- a/include/boost/circular_buffer/base.hpp
+++ b/include/boost/circular_buffer/base.hpp
@@ -668,11 +668,11 @@ public:
                         break;
                     }
                     if (is_uninitialized(dest)) {
-                        boost::allocator_construct(alloc(), boost::to_address(dest), boost::move_if_noexcept(*src));
+                        boost::allocator_construct(alloc(), boost::to_address(dest), cb_details::move_if_noexcept(*src));
                         ++constructed;
                     } else {
-                        value_type tmp = boost::move_if_noexcept(*src); 
-                        replace(src, boost::move_if_noexcept(*dest));
+                        value_type tmp = cb_details::move_if_noexcept(*src); 
+                        replace(src, cb_details::move_if_noexcept(*dest));
                         replace(dest, boost::move(tmp));
                     }
                 }
@@ -747,12 +747,12 @@ public:
             difference_type n = new_begin - begin();
             if (m < n) {
                 for (; m > 0; --m) {
-                    push_front(boost::move_if_noexcept(back()));
+                    push_front(cb_details::move_if_noexcept(back()));
                     pop_back();
                 }
             } else {
                 for (; n > 0; --n) {
-                    push_back(boost::move_if_noexcept(front()));
+                    push_back(cb_details::move_if_noexcept(front()));
                     pop_front();
                 }
             }
@@ -1869,7 +1869,7 @@ private:
             bool construct = !full();
             BOOST_TRY {
                 while (src != pos.m_it) {
-                    construct_or_replace(construct, dest, boost::move_if_noexcept(*src));
+                    construct_or_replace(construct, dest, cb_details::move_if_noexcept(*src));
                     increment(src);
                     increment(dest);
                     construct = false;
@@ -2116,7 +2116,7 @@ public:
         pointer next = pos.m_it;
         increment(next);
         for (pointer p = pos.m_it; next != m_last; p = next, increment(next))
-            replace(p, boost::move_if_noexcept(*next));
+            replace(p, cb_details::move_if_noexcept(*next));
         decrement(m_last);
         destroy_item(m_last);
         --m_size;
@@ -2155,7 +2155,7 @@ public:
             return first;
         pointer p = first.m_it;
         while (last.m_it != 0)
-            replace((first++).m_it, boost::move_if_noexcept(*last++));
+            replace((first++).m_it, cb_details::move_if_noexcept(*last++));
         do {
             decrement(m_last);
             destroy_item(m_last);
@@ -2193,7 +2193,7 @@ public:
         pointer prev = pos.m_it;
         pointer p = prev;
         for (decrement(prev); p != m_first; p = prev, decrement(prev))
-            replace(p, boost::move_if_noexcept(*prev));
+            replace(p, cb_details::move_if_noexcept(*prev));
         destroy_item(m_first);
         increment(m_first);
         --m_size;
@@ -2238,7 +2238,7 @@ public:
         while (first.m_it != m_first) {
             decrement(first.m_it);
             decrement(p);
-            replace(p, boost::move_if_noexcept(*first.m_it));
+            replace(p, cb_details::move_if_noexcept(*first.m_it));
         }
         do {
             destroy_item(m_first);
@@ -2772,7 +2772,7 @@ private:
             BOOST_TRY {
                 while (src != p) {
                     decrement(src);
-                    construct_or_replace(construct, dest, boost::move_if_noexcept(*src));
+                    construct_or_replace(construct, dest, cb_details::move_if_noexcept(*src));
                     decrement(dest);
                     construct = false;
                 }
diff --git a/include/boost/circular_buffer/details.hpp b/include/boost/circular_buffer/details.hpp
index ca497f1..340a6dd 100644
--- a/include/boost/circular_buffer/details.hpp
+++ b/include/boost/circular_buffer/details.hpp
@@ -20,6 +20,9 @@
 #include <boost/core/allocator_access.hpp>
 #include <boost/core/pointer_traits.hpp>
 #include <boost/move/move.hpp>
+#include <boost/type_traits/conditional.hpp>
+#include <boost/type_traits/is_copy_constructible.hpp>
+#include <boost/type_traits/is_nothrow_move_assignable.hpp>
 #include <boost/type_traits/is_nothrow_move_constructible.hpp>
 #include <boost/core/no_exceptions_support.hpp>
 #include <iterator>
@@ -48,6 +51,26 @@ ForwardIterator uninitialized_copy(InputIterator first, InputIterator last, Forw
 template<class InputIterator, class ForwardIterator, class Alloc>
 ForwardIterator uninitialized_move_if_noexcept(InputIterator first, InputIterator last, ForwardIterator dest, Alloc& a);
 
+#if defined(BOOST_NO_CXX11_RVALUE_REFERENCES)
+using boost::move_if_noexcept;
+#else
+/*!
+    \brief Conditionally convert to rvalue: a value which can be copied is moved only if neither its move constructor
+           nor its move assignment operator may throw. (<code>boost::move_if_noexcept</code> considers the move
+           constructor only.)
+*/
+template <class T>
+inline BOOST_DEDUCED_TYPENAME conditional<
+    !is_copy_constructible<T>::value ||
+    (is_nothrow_move_constructible<T>::value && is_nothrow_move_assignable<T>::value), T&&, const T&>::type
+move_if_noexcept(T& value) BOOST_NOEXCEPT {
+    typedef BOOST_DEDUCED_TYPENAME conditional<
+        !is_copy_constructible<T>::value ||
+        (is_nothrow_move_constructible<T>::value && is_nothrow_move_assignable<T>::value), T&&, const T&>::type result;
+    return static_cast<result>(value);
+}
+#endif
+
 /*!
     \struct const_traits
     \brief Defines the data types for a const iterator.
-- 
2.43.0


From 18ad9c942471fbda59c76161642a4048bbb6829a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:58 +0000
Subject: [PATCH 13/21] fix: failed constructor from a forward range longer
 than the capacity leaked memory

---
 include/boost/circular_buffer/base.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/boost/circular_buffer/base.hpp b/include/boost/circular_buffer/base.hpp
index bc5521e..12a4b79 100644
--- a/include/boost/circular_buffer/base.hpp
+++ b/include/boost/circular_buffer/base.hpp
@@ -2610,14 +2610,14 @@ private:
         ForwardIterator first,
         ForwardIterator last,
         size_type distance) {
-        initialize_buffer(buffer_capacity);
-        m_first = m_buff;
         if (distance > buffer_capacity) {
-            std::advance(first, distance - buffer_capacity);
+            std::advance(first, distance - buffer_capacity); // may throw => has to precede the allocation
             m_size = buffer_capacity;
         } else {
             m_size = distance;
         }
+        initialize_buffer(buffer_capacity);
+        m_first = m_buff;
         BOOST_TRY {
             m_last = cb_details::uninitialized_copy(first, last, m_buff, alloc());
         } BOOST_CATCH(...) {
-- 
2.43.0


From dfe2ff704f8c4f8f081cdf364a9fe0e5db523ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:47 +0000
Subject: [PATCH 14/21] fix: assigning a single-pass range or copying a space
 optimized buffer invalidated end() iterators in debug mode

The documentation promises that iterators equal to end() survive an assignment, but the debug support invalidated
them because these assignments were implemented by swap().
---
 include/boost/circular_buffer/base.hpp        | 27 +++++++++++++++----
 .../boost/circular_buffer/space_optimized.hpp |  2 +-
 2 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/include/boost/circular_buffer/base.hpp b/include/boost/circular_buffer/base.hpp
index 12a4b79..ae4db88 100644
--- a/include/boost/circular_buffer/base.hpp
+++ b/include/boost/circular_buffer/base.hpp
@@ -1402,16 +1402,33 @@ public:
         \sa <code>swap(circular_buffer<T, Alloc>&, circular_buffer<T, Alloc>&)</code>
     */
     void swap(circular_buffer<T, Alloc>& cb) BOOST_NOEXCEPT {
+        swap_content(cb);
+#if BOOST_CB_ENABLE_DEBUG
+        invalidate_all_iterators();
+        cb.invalidate_all_iterators();
+#endif
+    }
+
+protected:
+// Helpers
+
+    /*! INTERNAL ONLY */
+    void replace_content(circular_buffer<T, Alloc>& cb) BOOST_NOEXCEPT {
+        swap_content(cb);
+#if BOOST_CB_ENABLE_DEBUG
+        invalidate_iterators_except(end()); // unlike with swap() iterators equal to end() remain valid
+#endif
+    }
+
+private:
+    /*! INTERNAL ONLY */
+    void swap_content(circular_buffer<T, Alloc>& cb) BOOST_NOEXCEPT {
         swap_allocator(cb, is_stateless<allocator_type>());
         adl_move_swap(m_buff, cb.m_buff);
         adl_move_swap(m_end, cb.m_end);
         adl_move_swap(m_first, cb.m_first);
         adl_move_swap(m_last, cb.m_last);
         adl_move_swap(m_size, cb.m_size);
-#if BOOST_CB_ENABLE_DEBUG
-        invalidate_all_iterators();
-        cb.invalidate_all_iterators();
-#endif
     }
 
 // push and pop
@@ -2710,7 +2727,7 @@ private:
             insert(begin(), first, last);
         } else {
             circular_buffer<value_type, allocator_type> tmp(new_capacity, first, last, alloc());
-            tmp.swap(*this);
+            replace_content(tmp);
         }
     }
 
diff --git a/include/boost/circular_buffer/space_optimized.hpp b/include/boost/circular_buffer/space_optimized.hpp
index caaa7de..260a2c3 100644
--- a/include/boost/circular_buffer/space_optimized.hpp
+++ b/include/boost/circular_buffer/space_optimized.hpp
@@ -562,7 +562,7 @@ public:
         if (this == &cb)
             return *this;
         circular_buffer<T, Alloc> buff(cb.begin(), cb.end(), get_allocator());
-        circular_buffer<T, Alloc>::swap(buff);
+        circular_buffer<T, Alloc>::replace_content(buff);
         m_capacity_ctrl = cb.m_capacity_ctrl;
         return *this;
     }
-- 
2.43.0


From 72a0f2a06e57dcdda24df391c10b454d0be9e803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:16 +0000
Subject: [PATCH 15/21] fix: debug mode did not report decrementing begin() of
 an empty buffer and dereferenced a null buffer when advancing an
 uninitialized iterator

---
 include/boost/circular_buffer/details.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/boost/circular_buffer/details.hpp b/include/boost/circular_buffer/details.hpp
index 340a6dd..b4494f9 100644
--- a/include/boost/circular_buffer/details.hpp
+++ b/include/boost/circular_buffer/details.hpp
@@ -336,8 +336,9 @@ struct iterator
 
     //! Decrement operator (prefix).
     iterator& operator -- () {
-        BOOST_CB_ASSERT(is_valid(m_buff));        // check for uninitialized or invalidated iterator
-        BOOST_CB_ASSERT(m_it != m_buff->m_first); // check for iterator pointing to begin()
+        BOOST_CB_ASSERT(m_buff != 0);              // check for uninitialized iterator
+        BOOST_CB_ASSERT(is_valid(m_buff));         // check for invalidated iterator
+        BOOST_CB_ASSERT(*this != m_buff->begin()); // check for iterator pointing to begin() (also of an empty buffer)
         if (m_it == 0)
             m_it = m_buff->m_last;
         m_buff->decrement(m_it);
@@ -355,6 +356,7 @@ struct iterator
     iterator& operator += (difference_type n) {
         BOOST_CB_ASSERT(is_valid(m_buff)); // check for uninitialized or invalidated iterator
         if (n > 0) {
+            BOOST_CB_ASSERT(m_buff != 0); // check for uninitialized iterator
             BOOST_CB_ASSERT(m_buff->end() - *this >= n); // check for too large n
             m_it = m_buff->add(m_it, n);
             if (m_it == m_buff->m_last)
@@ -372,6 +374,7 @@ struct iterator
     iterator& operator -= (difference_type n) {
         BOOST_CB_ASSERT(is_valid(m_buff)); // check for uninitialized or invalidated iterator
         if (n > 0) {
+            BOOST_CB_ASSERT(m_buff != 0); // check for uninitialized iterator
             BOOST_CB_ASSERT(*this - m_buff->begin() >= n); // check for too large n
             m_it = m_buff->sub(m_it == 0 ? m_buff->m_last : m_it, n);
         } else if (n < 0) {
-- 
2.43.0


From 53df7f21ca0c8ce60743af953952cc9875065f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:54 +0000
Subject: [PATCH 16/21] fix: circular_buffer_space_optimized(capacity, n, item)
 with arguments of one integral type did not compile; surplus memory was kept
 after a single-pass range with an iterator category of its own

---
 .../boost/circular_buffer/space_optimized.hpp | 21 +++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/include/boost/circular_buffer/space_optimized.hpp b/include/boost/circular_buffer/space_optimized.hpp
index 260a2c3..8ac4f12 100644
--- a/include/boost/circular_buffer/space_optimized.hpp
+++ b/include/boost/circular_buffer/space_optimized.hpp
@@ -506,8 +506,7 @@ public:
         init_capacity(capacity_ctrl, first, last, is_integral<InputIterator>()),
         first, last, alloc)
     , m_capacity_ctrl(capacity_ctrl) {
-        reduce_capacity(
-            is_same< BOOST_DEDUCED_TYPENAME std::iterator_traits<InputIterator>::iterator_category, std::input_iterator_tag >());
+        reduce_capacity<InputIterator>(is_integral<InputIterator>());
     }
 
 #if defined(BOOST_CB_NEVER_DEFINED)
@@ -1576,12 +1575,26 @@ private:
     }
 
     /*! INTERNAL ONLY */
-    void reduce_capacity(const true_type&) {
+    template <class IntegralType>
+    void reduce_capacity(const true_type&) {}
+
+    /*! INTERNAL ONLY */
+    template <class Iterator>
+    void reduce_capacity(const false_type&) {
+#if BOOST_WORKAROUND(BOOST_BORLANDC, BOOST_TESTED_AT(0x581))
+        reduce_capacity(std::iterator_traits<Iterator>::iterator_category());
+#else
+        reduce_capacity(BOOST_DEDUCED_TYPENAME std::iterator_traits<Iterator>::iterator_category());
+#endif
+    }
+
+    /*! INTERNAL ONLY */
+    void reduce_capacity(const std::input_iterator_tag&) {
         circular_buffer<T, Alloc>::set_capacity((std::max)(m_capacity_ctrl.min_capacity(), size()));
     }
 
     /*! INTERNAL ONLY */
-    void reduce_capacity(const false_type&) {}
+    void reduce_capacity(const std::forward_iterator_tag&) {}
 
     /*! INTERNAL ONLY */
     static size_type init_capacity(const capacity_type& capacity_ctrl, size_type n) {
-- 
2.43.0


From 4ffbac637bfb6f3192d68debc66eed8563d0d499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:54 +0000
Subject: [PATCH 17/21] fix: circular_buffer_space_optimized::assign(capacity,
 range) allocated the whole capacity instead of the documented amount

---
 include/boost/circular_buffer/space_optimized.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/boost/circular_buffer/space_optimized.hpp b/include/boost/circular_buffer/space_optimized.hpp
index 8ac4f12..99bd2fb 100644
--- a/include/boost/circular_buffer/space_optimized.hpp
+++ b/include/boost/circular_buffer/space_optimized.hpp
@@ -722,8 +722,10 @@ public:
     */
     template <class InputIterator>
     void assign(capacity_type capacity_ctrl, InputIterator first, InputIterator last) {
-       circular_buffer<T, Alloc>::assign(capacity_ctrl, first, last);
+       circular_buffer<T, Alloc>::assign(
+           init_capacity(capacity_ctrl, first, last, is_integral<InputIterator>()), first, last);
        m_capacity_ctrl = capacity_ctrl;
+       reduce_capacity<InputIterator>(is_integral<InputIterator>());
     }
 
     //! Swap the contents of two space-optimized circular-buffers.
-- 
2.43.0


From d951e42bb62c8c87694b5b920a134730b7f64dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:48 +0000
Subject: [PATCH 18/21] fix: circular_buffer_space_optimized looped for ever or
 lost its elements when doubling the capacity overflowed size_type

---
 include/boost/circular_buffer/space_optimized.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/boost/circular_buffer/space_optimized.hpp b/include/boost/circular_buffer/space_optimized.hpp
index 99bd2fb..8a5b744 100644
--- a/include/boost/circular_buffer/space_optimized.hpp
+++ b/include/boost/circular_buffer/space_optimized.hpp
@@ -17,6 +17,7 @@
 
 #include <boost/type_traits/is_same.hpp>
 #include <boost/config/workaround.hpp>
+#include <boost/limits.hpp>
 
 namespace boost {
 
@@ -1529,11 +1530,17 @@ private:
         return reduced_capacity(capacity_ctrl, (std::min)(size(), capacity_ctrl.capacity()));
     }
 
+    /*! INTERNAL ONLY */
+    static size_type double_capacity(size_type n) { // saturates instead of overflowing
+        return n > (std::numeric_limits<size_type>::max)() / 2 ?
+            (std::numeric_limits<size_type>::max)() : static_cast<size_type>(n * 2);
+    }
+
     /*! INTERNAL ONLY */
     static size_type ensure_reserve(const capacity_type& capacity_ctrl, size_type new_capacity,
         size_type buffer_size) {
         if (buffer_size + new_capacity / 5 >= new_capacity)
-            new_capacity *= 2; // ensure at least 20% reserve
+            new_capacity = double_capacity(new_capacity); // ensure at least 20% reserve
         if (new_capacity > capacity_ctrl)
             return capacity_ctrl;
         return new_capacity;
@@ -1559,7 +1566,7 @@ private:
         if (new_size > new_capacity) {
             if (new_capacity == 0)
                 new_capacity = 1;
-            for (; new_size > new_capacity; new_capacity *= 2) {}
+            for (; new_size > new_capacity; new_capacity = double_capacity(new_capacity)) {}
             circular_buffer<T, Alloc>::set_capacity(
                 ensure_reserve(m_capacity_ctrl, new_capacity, new_size));
         }
-- 
2.43.0


From dcda78b3b85ddb761965207a2d8510000ef1f353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:48 +0000
Subject: [PATCH 19/21] fix: an element of the buffer itself given as an
 argument of resize, insert, rinsert or a growing push was read after it had
 been moved, overwritten or freed

---
 include/boost/circular_buffer/base.hpp        | 37 +++++++++++++++++++
 .../boost/circular_buffer/space_optimized.hpp | 24 ++++++++++++
 2 files changed, 61 insertions(+)

diff --git a/include/boost/circular_buffer/base.hpp b/include/boost/circular_buffer/base.hpp
index ae4db88..08bcae5 100644
--- a/include/boost/circular_buffer/base.hpp
+++ b/include/boost/circular_buffer/base.hpp
@@ -21,6 +21,7 @@
 #include <boost/config.hpp>
 #include <boost/concept_check.hpp>
 #include <boost/limits.hpp>
+#include <boost/core/addressof.hpp>
 #include <boost/core/allocator_access.hpp>
 #include <boost/core/empty_value.hpp>
 #include <boost/type_traits/is_stateless.hpp>
@@ -36,6 +37,7 @@
 #include <iterator>
 #include <utility>
 #include <deque>
+#include <functional>
 #include <stdexcept>
 
 #if BOOST_WORKAROUND(__MWERKS__, BOOST_TESTED_AT(0x3205))
@@ -918,6 +920,10 @@ public:
     */
     void resize(size_type new_size, param_value_type item = value_type()) {
         if (new_size > size()) {
+            if (is_stored(item)) {
+                const value_type tmp(item);
+                return resize(new_size, tmp);
+            }
             if (new_size > capacity())
                 set_capacity(new_size);
             insert(end(), new_size - size(), item);
@@ -993,6 +999,10 @@ public:
     */
     void rresize(size_type new_size, param_value_type item = value_type()) {
         if (new_size > size()) {
+            if (is_stored(item)) {
+                const value_type tmp(item);
+                return rresize(new_size, tmp);
+            }
             if (new_size > capacity())
                 set_capacity(new_size);
             rinsert(begin(), new_size - size(), item);
@@ -1420,6 +1430,17 @@ protected:
 #endif
     }
 
+    /*! INTERNAL ONLY */
+    // Is the item an element of this circular_buffer? (It can be relocated before it is used then.)
+    bool is_stored(param_value_type item) const {
+        if (empty())
+            return false;
+        const value_type* p = boost::addressof(item);
+        const value_type* b = boost::to_address(m_buff);
+        std::less<const value_type*> less;
+        return !less(p, b) && less(p, b + (m_end - m_buff));
+    }
+
 private:
     /*! INTERNAL ONLY */
     void swap_content(circular_buffer<T, Alloc>& cb) BOOST_NOEXCEPT {
@@ -1687,6 +1708,10 @@ public:
             <code>rinsert(iterator, InputIterator, InputIterator)</code>
     */
     iterator insert(iterator pos, param_value_type item) {
+        if (is_stored(item)) {
+            const value_type tmp(item);
+            return insert_impl<param_value_type>(pos, tmp);
+        }
         return insert_impl<param_value_type>(pos, item);
     }
 
@@ -1799,6 +1824,10 @@ public:
     */
     void insert(iterator pos, size_type n, param_value_type item) {
         BOOST_CB_ASSERT(pos.is_valid(this)); // check for uninitialized or invalidated iterator
+        if (is_stored(item)) {
+            const value_type tmp(item);
+            return insert(pos, n, tmp);
+        }
         if (n == 0)
             return;
         size_type copy = capacity() - (end() - pos);
@@ -1942,6 +1971,10 @@ public:
             <code>insert(iterator, InputIterator, InputIterator)</code>
     */
     iterator rinsert(iterator pos, param_value_type item) {
+        if (is_stored(item)) {
+            const value_type tmp(item);
+            return rinsert_impl<param_value_type>(pos, tmp);
+        }
         return rinsert_impl<param_value_type>(pos, item);
     }
 
@@ -2051,6 +2084,10 @@ public:
     */
     void rinsert(iterator pos, size_type n, param_value_type item) {
         BOOST_CB_ASSERT(pos.is_valid(this)); // check for uninitialized or invalidated iterator
+        if (is_stored(item)) {
+            const value_type tmp(item);
+            return rinsert(pos, n, tmp);
+        }
         rinsert_n(pos, n, cb_details::item_wrapper<const_pointer, param_value_type>(item));
     }
 
diff --git a/include/boost/circular_buffer/space_optimized.hpp b/include/boost/circular_buffer/space_optimized.hpp
index 8a5b744..0305b5d 100644
--- a/include/boost/circular_buffer/space_optimized.hpp
+++ b/include/boost/circular_buffer/space_optimized.hpp
@@ -778,6 +778,10 @@ public:
             <code>pop_front()</code>
     */
     void push_back(param_value_type item) {
+        if (this->is_stored(item)) {
+            const value_type tmp(item);
+            return push_back(tmp);
+        }
         check_low_capacity();
         circular_buffer<T, Alloc>::push_back(item);
     }
@@ -852,6 +856,10 @@ public:
             <code>pop_front()</code>
     */
     void push_front(param_value_type item) {
+        if (this->is_stored(item)) {
+            const value_type tmp(item);
+            return push_front(tmp);
+        }
         check_low_capacity();
         circular_buffer<T, Alloc>::push_front(item);
     }
@@ -984,6 +992,10 @@ public:
             <code>rinsert(iterator, InputIterator, InputIterator)</code>
     */
     iterator insert(iterator pos, param_value_type item) {
+        if (this->is_stored(item)) {
+            const value_type tmp(item);
+            return insert(pos, tmp);
+        }
         size_type index = pos - begin();
         check_low_capacity();
         return circular_buffer<T, Alloc>::insert(begin() + index, item);
@@ -1106,6 +1118,10 @@ public:
             <code>rinsert(iterator, InputIterator, InputIterator)</code>
     */
     void insert(iterator pos, size_type n, param_value_type item) {
+        if (this->is_stored(item)) {
+            const value_type tmp(item);
+            return insert(pos, n, tmp);
+        }
         size_type index = pos - begin();
         check_low_capacity(n);
         circular_buffer<T, Alloc>::insert(begin() + index, n, item);
@@ -1195,6 +1211,10 @@ public:
             <code>insert(iterator, InputIterator, InputIterator)</code>
     */
     iterator rinsert(iterator pos, param_value_type item) {
+        if (this->is_stored(item)) {
+            const value_type tmp(item);
+            return rinsert(pos, tmp);
+        }
         size_type index = pos - begin();
         check_low_capacity();
         return circular_buffer<T, Alloc>::rinsert(begin() + index, item);
@@ -1317,6 +1337,10 @@ public:
             <code>insert(iterator, InputIterator, InputIterator)</code>
     */
     void rinsert(iterator pos, size_type n, param_value_type item) {
+        if (this->is_stored(item)) {
+            const value_type tmp(item);
+            return rinsert(pos, n, tmp);
+        }
         size_type index = pos - begin();
         check_low_capacity(n);
         circular_buffer<T, Alloc>::rinsert(begin() + index, n, item);
-- 
2.43.0


From e4940aecea5dc1b6c8236c0548f09f428247d1a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:31 +0000
Subject: [PATCH 20/21] fix: the move constructor of
 circular_buffer_space_optimized required a default-constructible allocator

---
 include/boost/circular_buffer/space_optimized.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/circular_buffer/space_optimized.hpp b/include/boost/circular_buffer/space_optimized.hpp
index 0305b5d..4ad40e8 100644
--- a/include/boost/circular_buffer/space_optimized.hpp
+++ b/include/boost/circular_buffer/space_optimized.hpp
@@ -442,7 +442,7 @@ public:
         \par Constant.
     */
     circular_buffer_space_optimized(circular_buffer_space_optimized<T, Alloc>&& cb) BOOST_NOEXCEPT
-    : circular_buffer<T, Alloc>()
+    : circular_buffer<T, Alloc>(cb.get_allocator())
     , m_capacity_ctrl(0) {
         cb.swap(*this);
     }
-- 
2.43.0


From 4e511cc1b448285ab75cd641b1bf884f4c7752a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:35 +0000
Subject: [PATCH 21/21] fix: ranges longer than an allocator's size_type can
 count

The length of a multi-pass range was narrowed to size_type before it was compared with
the capacity. With an allocator whose size_type is narrower than the difference type of
the range, a longer range was taken for a short one: the wrong items were kept, and the
constructor and assign() wrote behind the allocated storage instead of throwing
std::length_error.
---
 include/boost/circular_buffer/base.hpp        | 39 +++++++++----------
 include/boost/circular_buffer/details.hpp     | 26 +++++++++++++
 .../boost/circular_buffer/space_optimized.hpp |  6 +--
 3 files changed, 47 insertions(+), 24 deletions(-)

diff --git a/include/boost/circular_buffer/base.hpp b/include/boost/circular_buffer/base.hpp
index 08bcae5..c9e78d9 100644
--- a/include/boost/circular_buffer/base.hpp
+++ b/include/boost/circular_buffer/base.hpp
@@ -2590,11 +2590,18 @@ private:
         initialize(distance, boost::make_move_iterator(tmp.begin()), boost::make_move_iterator(tmp.end()), distance);
     }
 
+    /*! INTERNAL ONLY */
+    size_type check_size(std::size_t n) const {
+        if (n > max_size())
+            throw_exception(std::length_error("circular_buffer"));
+        return static_cast<size_type>(n);
+    }
+
     /*! INTERNAL ONLY */
     template <class ForwardIterator>
     void initialize(ForwardIterator first, ForwardIterator last, const std::forward_iterator_tag&) {
         BOOST_CB_ASSERT(std::distance(first, last) >= 0); // check for wrong range
-        size_type distance = std::distance(first, last);
+        size_type distance = check_size(std::distance(first, last));
         initialize(distance, first, last, distance);
     }
 
@@ -2655,7 +2662,9 @@ private:
         ForwardIterator last,
         const std::forward_iterator_tag&) {
         BOOST_CB_ASSERT(std::distance(first, last) >= 0); // check for wrong range
-        initialize(buffer_capacity, first, last, std::distance(first, last));
+        size_type distance = cb_details::skip_surplus<size_type>(
+            first, last, buffer_capacity); // may throw => has to precede the allocation
+        initialize(buffer_capacity, first, last, distance);
     }
 
     /*! INTERNAL ONLY */
@@ -2664,12 +2673,7 @@ private:
         ForwardIterator first,
         ForwardIterator last,
         size_type distance) {
-        if (distance > buffer_capacity) {
-            std::advance(first, distance - buffer_capacity); // may throw => has to precede the allocation
-            m_size = buffer_capacity;
-        } else {
-            m_size = distance;
-        }
+        m_size = distance;
         initialize_buffer(buffer_capacity);
         m_first = m_buff;
         BOOST_TRY {
@@ -2735,7 +2739,7 @@ private:
     template <class ForwardIterator>
     void assign(ForwardIterator first, ForwardIterator last, const std::forward_iterator_tag&) {
         BOOST_CB_ASSERT(std::distance(first, last) >= 0); // check for wrong range
-        size_type distance = std::distance(first, last);
+        size_type distance = check_size(std::distance(first, last));
         assign_n(distance, distance, cb_details::make_assign_range(first, last, alloc()));
     }
 
@@ -2773,11 +2777,7 @@ private:
     void assign(capacity_type new_capacity, ForwardIterator first, ForwardIterator last,
         const std::forward_iterator_tag&) {
         BOOST_CB_ASSERT(std::distance(first, last) >= 0); // check for wrong range
-        size_type distance = std::distance(first, last);
-        if (distance > new_capacity) {
-            std::advance(first, distance - new_capacity);
-            distance = new_capacity;
-        }
+        size_type distance = cb_details::skip_surplus<size_type>(first, last, new_capacity);
         assign_n(new_capacity, distance,
             cb_details::make_assign_range(first, last, alloc()));
     }
@@ -2878,16 +2878,12 @@ private:
     template <class ForwardIterator>
     void insert(const iterator& pos, ForwardIterator first, ForwardIterator last, const std::forward_iterator_tag&) {
         BOOST_CB_ASSERT(std::distance(first, last) >= 0); // check for wrong range
-        size_type n = std::distance(first, last);
-        if (n == 0)
+        if (first == last)
             return;
         size_type copy = capacity() - (end() - pos);
         if (copy == 0)
             return;
-        if (n > copy) {
-            std::advance(first, n - copy);
-            n = copy;
-        }
+        size_type n = cb_details::skip_surplus<size_type>(first, last, copy);
         insert_n(pos, n, cb_details::iterator_wrapper<ForwardIterator>(first));
     }
 
@@ -2972,7 +2968,8 @@ private:
     template <class ForwardIterator>
     void rinsert(const iterator& pos, ForwardIterator first, ForwardIterator last, const std::forward_iterator_tag&) {
         BOOST_CB_ASSERT(std::distance(first, last) >= 0); // check for wrong range
-        rinsert_n(pos, std::distance(first, last), cb_details::iterator_wrapper<ForwardIterator>(first));
+        rinsert_n(pos, cb_details::range_size<size_type>(first, last),
+            cb_details::iterator_wrapper<ForwardIterator>(first));
     }
 
     /*! INTERNAL ONLY */
diff --git a/include/boost/circular_buffer/details.hpp b/include/boost/circular_buffer/details.hpp
index b4494f9..9c62781 100644
--- a/include/boost/circular_buffer/details.hpp
+++ b/include/boost/circular_buffer/details.hpp
@@ -25,7 +25,9 @@
 #include <boost/type_traits/is_nothrow_move_assignable.hpp>
 #include <boost/type_traits/is_nothrow_move_constructible.hpp>
 #include <boost/core/no_exceptions_support.hpp>
+#include <cstddef>
 #include <iterator>
+#include <limits>
 
 // Silence MS /W4 warnings like C4913:
 // "user defined binary operator ',' exists but no overload could convert all operands, default built-in binary operator ',' used"
@@ -445,6 +447,30 @@ operator + (typename Traits::difference_type n, const iterator<Buff, Traits>& it
     return it + n;
 }
 
+/*!
+    \brief Number of items of a range. A number which <code>Size</code> cannot represent counts as the greatest one.
+*/
+template <class Size, class ForwardIterator>
+inline Size range_size(ForwardIterator first, ForwardIterator last) {
+    const std::size_t n = static_cast<std::size_t>(std::distance(first, last));
+    const Size limit = (std::numeric_limits<Size>::max)();
+    return n > limit ? limit : static_cast<Size>(n);
+}
+
+/*!
+    \brief Advance <code>first</code> so that no more than <code>limit</code> items of the range remain.
+    \return The number of the remaining items.
+*/
+template <class Size, class ForwardIterator>
+inline Size skip_surplus(ForwardIterator& first, ForwardIterator last, Size limit) {
+    typedef BOOST_DEDUCED_TYPENAME std::iterator_traits<ForwardIterator>::difference_type difference_type;
+    const difference_type n = std::distance(first, last);
+    if (static_cast<std::size_t>(n) <= limit)
+        return static_cast<Size>(n);
+    std::advance(first, n - static_cast<difference_type>(limit));
+    return limit;
+}
+
 /*!
     \fn ForwardIterator uninitialized_copy(InputIterator first, InputIterator last, ForwardIterator dest)
     \brief Equivalent of <code>std::uninitialized_copy</code> but with explicit specification of value type.
diff --git a/include/boost/circular_buffer/space_optimized.hpp b/include/boost/circular_buffer/space_optimized.hpp
index 4ad40e8..77ebbe2 100644
--- a/include/boost/circular_buffer/space_optimized.hpp
+++ b/include/boost/circular_buffer/space_optimized.hpp
@@ -1668,7 +1668,7 @@ private:
         const std::forward_iterator_tag&) {
         BOOST_CB_ASSERT(std::distance(first, last) >= 0); // check for wrong range
         return (std::max)(capacity_ctrl.min_capacity(),
-            (std::min)(capacity_ctrl.capacity(), static_cast<size_type>(std::distance(first, last))));
+            (std::min)(capacity_ctrl.capacity(), cb_details::range_size<size_type>(first, last)));
     }
 
     /*! INTERNAL ONLY */
@@ -1703,7 +1703,7 @@ private:
     template <class ForwardIterator>
     void insert(const iterator& pos, ForwardIterator first, ForwardIterator last, const std::forward_iterator_tag&) {
         size_type index = pos - begin();
-        check_low_capacity(std::distance(first, last));
+        check_low_capacity(cb_details::range_size<size_type>(first, last));
         circular_buffer<T, Alloc>::insert(begin() + index, first, last);
     }
 
@@ -1741,7 +1741,7 @@ private:
     template <class ForwardIterator>
     void rinsert(const iterator& pos, ForwardIterator first, ForwardIterator last, const std::forward_iterator_tag&) {
         size_type index = pos - begin();
-        check_low_capacity(std::distance(first, last));
+        check_low_capacity(cb_details::range_size<size_type>(first, last));
         circular_buffer<T, Alloc>::rinsert(begin() + index, first, last);
     }
 };
-- 
2.43.0

