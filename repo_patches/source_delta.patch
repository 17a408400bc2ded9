From 22b343c7aa3727f791a33170db685c318ef8c9bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:40 +0000
Subject: [PATCH 01/59] fix: Vector::remove takes a logical index and no longer
 reads past the store

---
 src/spine/structure/vector.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/spine/structure/vector.hpp b/src/spine/structure/vector.hpp
index 4ed5d8c..52461da 100644
--- a/src/spine/structure/vector.hpp
+++ b/src/spine/structure/vector.hpp
@@ -243,15 +243,17 @@ void Vector<T>::insert(ArrayBase::Size index, const T& item) {
 
 template<typename T>
 T Vector<T>::remove(ArrayBase::Size index) {
-    if (index == m_head) {
+    if (index == 0) {
         return std::move(pop_front());
     }
-    if (index == m_tail) {
+    if (index == size()) {
         return std::move(pop_back());
     }
-    if (index > m_head && index < m_tail) {
-        auto removed = std::move(this->m_store[index]);
-        memmove(&this->m_store[index], &this->m_store[index + 1], (m_tail-- - index) * sizeof(T));
+    if (index < size()) {
+        const auto pos = m_head + index;
+        auto removed = std::move(this->m_store[pos]);
+        m_tail--;
+        memmove((char*)&this->m_store[pos], (char*)&this->m_store[pos + 1], (m_tail - pos) * sizeof(T));
         if (m_tail == m_head) {
             m_tail = 0;
             m_head = 0;
-- 
2.43.0


From f6bf91c00a8b9a0430918f288f524ee8a3bbacee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:40 +0000
Subject: [PATCH 02/59] fix: Vector::pop_back returns the last element when it
 empties a vector with a shifted head

---
 src/spine/structure/vector.hpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/spine/structure/vector.hpp b/src/spine/structure/vector.hpp
index 52461da..7e1fe19 100644
--- a/src/spine/structure/vector.hpp
+++ b/src/spine/structure/vector.hpp
@@ -158,14 +158,12 @@ T& Vector<T>::peek_back() const {
 template<typename T>
 [[nodiscard]] T&& Vector<T>::pop_back() {
     spn_assert(size() > 0);
-    if (m_tail > 0) {
-        m_tail--;
-        if (m_tail == m_head) {
-            m_tail = 0;
-            m_head = 0;
-        }
+    const auto cur_tail = m_tail > 0 ? --m_tail : 0;
+    if (m_tail == m_head) {
+        m_tail = 0;
+        m_head = 0;
     }
-    return std::move(this->m_store[m_tail]);
+    return std::move(this->m_store[cur_tail]);
 }
 
 template<typename T>
-- 
2.43.0


From ddfdda50b9d908a51e650935076008d5795b7294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:40 +0000
Subject: [PATCH 03/59] fix: prepending or inserting into a full Vector no
 longer writes past the store

---
 src/spine/structure/vector.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/spine/structure/vector.hpp b/src/spine/structure/vector.hpp
index 7e1fe19..577ff45 100644
--- a/src/spine/structure/vector.hpp
+++ b/src/spine/structure/vector.hpp
@@ -169,6 +169,8 @@ template<typename T>
 template<typename T>
 void Vector<T>::push_front(const T& item) {
     spn_assert(this->size() < this->max_size());
+    if (full()) return;
+
     if (m_head > 0) {
         this->m_store[--m_head] = item;
         return;
@@ -186,6 +188,9 @@ void Vector<T>::push_front(const T& item) {
 
 template<typename T>
 void Vector<T>::emplace_front(const T&& item) {
+    spn_assert(this->size() < this->max_size());
+    if (full()) return;
+
     if (m_head > 0) {
         this->m_store[--m_head] = std::move(item);
         return;
@@ -219,6 +224,7 @@ T&& Vector<T>::pop_front() {
 template<typename T>
 void Vector<T>::insert(ArrayBase::Size index, const T& item) {
     spn_assert(this->size() < this->m_max_size);
+    if (full()) return;
 
     if (index == 0) {
         push_front(item);
-- 
2.43.0


From b39aec51b4d5d48455f4f77cee01981866936745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:40 +0000
Subject: [PATCH 04/59] fix: postfix increment and decrement of array iterators
 return the previous position

---
 src/spine/structure/array.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/spine/structure/array.hpp b/src/spine/structure/array.hpp
index 83df11f..9117f5c 100644
--- a/src/spine/structure/array.hpp
+++ b/src/spine/structure/array.hpp
@@ -357,8 +357,9 @@ ArrayIterator<T>& ArrayIterator<T>::operator++() {
 
 template<typename T>
 ArrayIterator<T> ArrayIterator<T>::operator++(int) {
+    auto previous = *this;
     m_index++;
-    return *this;
+    return previous;
 }
 
 template<typename T>
@@ -369,8 +370,9 @@ ArrayIterator<T>& ArrayIterator<T>::operator--() {
 
 template<typename T>
 ArrayIterator<T> ArrayIterator<T>::operator--(int) {
+    auto previous = *this;
     m_index--;
-    return *this;
+    return previous;
 }
 
 template<typename T>
@@ -408,8 +410,9 @@ ArrayReverseIterator<T>& ArrayReverseIterator<T>::operator++() {
 
 template<typename T>
 ArrayReverseIterator<T> ArrayReverseIterator<T>::operator++(int) {
+    auto previous = *this;
     --this->m_index;
-    return *this;
+    return previous;
 }
 template<typename T>
 ArrayReverseIterator<T>& ArrayReverseIterator<T>::operator--() {
@@ -418,8 +421,9 @@ ArrayReverseIterator<T>& ArrayReverseIterator<T>::operator--() {
 }
 template<typename T>
 ArrayReverseIterator<T> ArrayReverseIterator<T>::operator--(int) {
+    auto previous = *this;
     ++this->m_index;
-    return *this;
+    return previous;
 }
 
 } // namespace spn::structure
-- 
2.43.0


From 5d447c9ebb13c6e5f15b89898de149b41203aa64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:40 +0000
Subject: [PATCH 05/59] fix: const reverse iteration over an Array visits its
 elements

---
 src/spine/structure/array.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/spine/structure/array.hpp b/src/spine/structure/array.hpp
index 9117f5c..9b793db 100644
--- a/src/spine/structure/array.hpp
+++ b/src/spine/structure/array.hpp
@@ -281,22 +281,22 @@ typename Array<T>::reverse_iterator Array<T>::rend() {
 
 template<typename T>
 typename Array<T>::const_reverse_iterator Array<T>::rbegin() const {
-    return const_reverse_iterator(m_store, m_max_size - (m_max_size > 0));
+    return const_reverse_iterator(m_store, m_max_size - 1);
 }
 
 template<typename T>
 typename Array<T>::const_reverse_iterator Array<T>::rend() const {
-    return const_reverse_iterator(m_store, (m_max_size - (m_max_size > 0)));
+    return const_reverse_iterator(m_store, -1);
 }
 
 template<typename T>
 typename Array<T>::const_reverse_iterator Array<T>::crbegin() const {
-    return const_reverse_iterator(m_store, m_max_size - (m_max_size > 0));
+    return rbegin();
 }
 
 template<typename T>
 typename Array<T>::const_reverse_iterator Array<T>::crend() const {
-    return const_reverse_iterator(m_store, (m_max_size - (m_max_size > 0)));
+    return rend();
 }
 
 /* utility */
-- 
2.43.0


From a3e988fd016e2fdf0952b7e41c25f881c7a2fb20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:07 +0000
Subject: [PATCH 06/59] fix: assigning to an Array releases the store it owned,
 and a moved-from Array is empty

---
 src/spine/structure/array.hpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/spine/structure/array.hpp b/src/spine/structure/array.hpp
index 9b793db..9b21f0c 100644
--- a/src/spine/structure/array.hpp
+++ b/src/spine/structure/array.hpp
@@ -164,12 +164,15 @@ Array<T>::Array(Array&& other) noexcept
     : ArrayBase(std::move(other)), m_store(other.m_store), m_max_size(other.m_max_size),
       m_store_is_internal(other.m_store_is_internal) {
     other.m_store = nullptr;
+    other.m_max_size = 0;
+    other.m_store_is_internal = false;
 }
 
 template<typename T>
 Array<T>& Array<T>::operator=(const Array& other) {
-    if (this == &other) return *this;
+    if (this == &other || m_store == other.m_store) return *this; // an alias of our own store changes nothing
     ArrayBase::operator=(other);
+    if (m_store_is_internal) std::free(m_store);
     m_store = other.m_store;
     m_max_size = other.m_max_size;
     m_store_is_internal = false; // prevent double free
@@ -180,18 +183,19 @@ template<typename T>
 Array<T>& Array<T>::operator=(Array&& other) noexcept {
     if (this == &other) return *this;
     ArrayBase::operator=(std::move(other));
+    const auto is_alias = m_store == other.m_store;
+    if (m_store_is_internal && !is_alias) std::free(m_store);
     m_store = other.m_store;
-    other.m_store = nullptr;
     m_max_size = other.m_max_size;
-    m_store_is_internal = other.m_store_is_internal;
+    m_store_is_internal = other.m_store_is_internal || (is_alias && m_store_is_internal);
+    other.m_store = nullptr;
+    other.m_max_size = 0;
+    other.m_store_is_internal = false;
     return *this;
 }
 
 template<typename T>
 Array<T>& Array<T>::operator=(const std::initializer_list<T>& value_list) noexcept {
-    if (m_store_is_internal) {
-        std::free(m_store);
-    }
     *this = Array<T>(value_list);
     return *this;
 }
-- 
2.43.0


From 51ea5142960010867cd9492f62f59d03e87132cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:07 +0000
Subject: [PATCH 07/59] fix: swapping arrays and vectors exchanges size and
 ownership along with the store

---
 src/spine/structure/array.hpp  | 7 ++++---
 src/spine/structure/vector.hpp | 8 ++++++++
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/spine/structure/array.hpp b/src/spine/structure/array.hpp
index 9b21f0c..1b6c158 100644
--- a/src/spine/structure/array.hpp
+++ b/src/spine/structure/array.hpp
@@ -5,6 +5,7 @@
 #include <cstdlib>
 #include <cstring>
 #include <initializer_list>
+#include <utility>
 
 namespace spn::structure {
 
@@ -322,9 +323,9 @@ ArrayBase::Size Array<T>::max_size() const {
 
 template<typename T>
 void Array<T>::swap(Array& other) noexcept {
-    T* tmp = this->m_store;
-    this->m_store = other.m_store;
-    other.m_store = tmp;
+    std::swap(m_store, other.m_store);
+    std::swap(m_max_size, other.m_max_size);
+    std::swap(m_store_is_internal, other.m_store_is_internal);
 }
 
 template<typename T>
diff --git a/src/spine/structure/vector.hpp b/src/spine/structure/vector.hpp
index 577ff45..3fdbedf 100644
--- a/src/spine/structure/vector.hpp
+++ b/src/spine/structure/vector.hpp
@@ -69,6 +69,7 @@ public:
     bool full() const;
     Size size() const;
 
+    void swap(Vector& other) noexcept;
     void fill(const T& value);
 
 private:
@@ -341,6 +342,13 @@ bool Vector<T>::full() const {
     return size() == this->m_max_size;
 }
 
+template<typename T>
+void Vector<T>::swap(Vector& other) noexcept {
+    Array<T>::swap(other);
+    std::swap(m_head, other.m_head);
+    std::swap(m_tail, other.m_tail);
+}
+
 template<typename T>
 void Vector<T>::fill(const T& value) {
     Array<T>::fill(value);
-- 
2.43.0


From 21081c5546c4ff90f27498d5988f0e7c06ab9a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:07 +0000
Subject: [PATCH 08/59] fix: Vector::at, front and data start at the first
 element, not at the start of the store

---
 src/spine/structure/vector.hpp | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/spine/structure/vector.hpp b/src/spine/structure/vector.hpp
index 3fdbedf..201df0f 100644
--- a/src/spine/structure/vector.hpp
+++ b/src/spine/structure/vector.hpp
@@ -53,7 +53,11 @@ public:
 
     void clear();
 
+    T& at(Size index) const;
+    T& front();
     T& back();
+    T* data();
+    const T* data() const;
 
     typename Array<T>::iterator begin();
     typename Array<T>::const_iterator begin() const;
@@ -276,6 +280,26 @@ void Vector<T>::clear() {
     }
 }
 
+template<typename T>
+T& Vector<T>::at(ArrayBase::Size index) const {
+    return this->m_store[m_head + index];
+}
+
+template<typename T>
+T& Vector<T>::front() {
+    return this->m_store[m_head];
+}
+
+template<typename T>
+T* Vector<T>::data() {
+    return this->m_store + m_head;
+}
+
+template<typename T>
+const T* Vector<T>::data() const {
+    return this->m_store + m_head;
+}
+
 template<typename T>
 T& Vector<T>::back() {
     return this->m_store[m_tail > 0 ? m_tail - 1 : 0];
-- 
2.43.0


From 802efd163ae62f39c0e102499f059dc9b58d3002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:23 +0000
Subject: [PATCH 09/59] fix: dropping nothing from a full RingBuffer keeps its
 elements, and dropping never inflates the overrun count

---
 src/spine/structure/ringbuffer.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/spine/structure/ringbuffer.hpp b/src/spine/structure/ringbuffer.hpp
index 81472bc..f487124 100644
--- a/src/spine/structure/ringbuffer.hpp
+++ b/src/spine/structure/ringbuffer.hpp
@@ -151,16 +151,18 @@ bool RingBuffer<T>::peek_at(T** ptr, size_t index) {
 template<typename T>
 size_t RingBuffer<T>::drop_last(size_t n) {
     n = std::min(used_space(), n);
+    if (n == 0) return 0;
     retract_head(n);
 
     m_is_full = false;
-    m_overwritten = std::max(static_cast<size_t>(0), m_overwritten - n);
+    m_overwritten -= std::min(m_overwritten, n);
     return n;
 }
 
 template<typename T>
 size_t RingBuffer<T>::drop_first(size_t n) {
     n = std::min(used_space(), n);
+    if (n == 0) return 0;
     advance_tail(n);
 
     m_is_full = false;
-- 
2.43.0


From 55416ad45c380c554b424c10221d21307f290bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:23 +0000
Subject: [PATCH 10/59] fix: a RingBuffer of one element counts the elements it
 overwrites

---
 src/spine/structure/ringbuffer.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/spine/structure/ringbuffer.hpp b/src/spine/structure/ringbuffer.hpp
index f487124..e334e79 100644
--- a/src/spine/structure/ringbuffer.hpp
+++ b/src/spine/structure/ringbuffer.hpp
@@ -81,11 +81,11 @@ bool RingBuffer<T>::push(const T& value, bool rollover) {
     if (m_is_full && !rollover) return false;
     m_buffer[m_head] = value;
     m_head = (m_head + 1) % m_buffer.size();
-    if (m_head == m_tail) {
-        m_is_full = true;
-    } else if (m_is_full) {
+    if (m_is_full) {
         m_tail = (m_tail + 1) % m_buffer.size();
         ++m_overwritten;
+    } else if (m_head == m_tail) {
+        m_is_full = true;
     }
     return true;
 }
-- 
2.43.0


From 82cd8aa02d374dc83559983d596c9769a1c86945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:23 +0000
Subject: [PATCH 11/59] fix: a line view over a line that wraps around the end
 of the LineBuffer shows that line

---
 src/spine/structure/linebuffer.cpp |  6 ++----
 src/spine/structure/ringbuffer.hpp | 10 ++++++++++
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/spine/structure/linebuffer.cpp b/src/spine/structure/linebuffer.cpp
index 960d3a7..f83c587 100644
--- a/src/spine/structure/linebuffer.cpp
+++ b/src/spine/structure/linebuffer.cpp
@@ -12,10 +12,8 @@ void LineBuffer::set_delimiters(const std::string_view delimiters) { _delimiters
 std::optional<std::string_view> LineBuffer::get_next_line_view(const std::optional<size_t>& discovered_length) {
     auto length = discovered_length.value_or(length_of_next_line());
     if (length == 0) return {};
-    length -= 1; // ignore delimiter
-    char* str;
-    if (peek_at(&str, 0) == false) return std::nullopt;
-    return std::string_view(str, length);
+    if (length > used_space()) return std::nullopt;
+    return std::string_view(contiguous(length), length - 1); // ignore delimiter
 }
 
 size_t LineBuffer::get_next_line(char* buffer, size_t max_length, const std::optional<size_t>& discovered_length) { //
diff --git a/src/spine/structure/ringbuffer.hpp b/src/spine/structure/ringbuffer.hpp
index e334e79..205af2a 100644
--- a/src/spine/structure/ringbuffer.hpp
+++ b/src/spine/structure/ringbuffer.hpp
@@ -67,6 +67,16 @@ protected:
     /// Pull the writing head backwards by `n`, effectively dropping `n` last inserted  elements
     void retract_head(size_t n) { m_head = (m_head + m_buffer.size() - (n % m_buffer.size())) % m_buffer.size(); }
 
+    /// Returns a pointer to the first `n` elements, rearranged to lie next to each other if they wrap around the end
+    T* contiguous(size_t n) {
+        if (m_tail + n > m_buffer.size()) {
+            std::rotate(m_buffer.data(), m_buffer.data() + m_tail, m_buffer.data() + m_buffer.size());
+            m_head = (m_head + m_buffer.size() - m_tail) % m_buffer.size();
+            m_tail = 0;
+        }
+        return m_buffer.data() + m_tail;
+    }
+
 private:
     Array<T> m_buffer;
     size_t m_head{0};
-- 
2.43.0


From 4f33f7a77fdfd9241fb30df2fcb38454ca52196f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:30 +0000
Subject: [PATCH 12/59] fix: destroying a Pool releases all of its objects, not
 just half of them

---
 src/spine/structure/pool.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spine/structure/pool.hpp b/src/spine/structure/pool.hpp
index 38068ba..52c18bf 100644
--- a/src/spine/structure/pool.hpp
+++ b/src/spine/structure/pool.hpp
@@ -16,7 +16,7 @@ protected:
 public:
     Pool(size_t size) : _pointers(Vector<Pointer>(size)) {}
     ~Pool() {
-        for (size_t i = 0; i < _pointers.size(); ++i)
+        while (!_pointers.empty())
             depopulate().reset();
         spn_assert(_pointers.empty());
     }
-- 
2.43.0


From defc268376042be3ba9e63d899991c07b3b6f926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:30 +0000
Subject: [PATCH 13/59] fix: chaining on a Result without a value does not read
 the missing value

---
 src/spine/structure/result.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spine/structure/result.hpp b/src/spine/structure/result.hpp
index b445a64..06161a7 100644
--- a/src/spine/structure/result.hpp
+++ b/src/spine/structure/result.hpp
@@ -92,7 +92,7 @@ public:
         using ExpectedResult = Result<std::decay_t<T>, std::decay_t<E>, std::decay_t<I>>;
         static_assert(std::is_invocable_r_v<ExpectedResult, F, I&>,
                       "Function passed to chain must return a Result<T, E, I> and take I& as a parameter.");
-        if (is_failed() || is_success()) {
+        if (!is_intermediary()) {
             return *this;
         }
         return func(intermediary_value_mut());
-- 
2.43.0


From 57925c34f34bcc559adeff3a0ebe993b439d2033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:30 +0000
Subject: [PATCH 14/59] fix: StaticString strips and matches within its own
 contents

---
 src/spine/structure/static_string.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/spine/structure/static_string.cpp b/src/spine/structure/static_string.cpp
index bdf3927..13978b7 100644
--- a/src/spine/structure/static_string.cpp
+++ b/src/spine/structure/static_string.cpp
@@ -17,7 +17,7 @@ char* StaticString::data(const size_t expected_bytes_written) {
 }
 StaticString& StaticString::lstrip(std::string_view delimiters) {
     auto it = _buffer.begin();
-    while (delimiters.find(*it) != std::string::npos)
+    while (it != _buffer.end() && delimiters.find(*it) != std::string::npos)
         ++it;
     const auto len = it - _buffer.begin();
     std::memmove(data(), data() + len, size() - len);
@@ -26,7 +26,7 @@ StaticString& StaticString::lstrip(std::string_view delimiters) {
 }
 StaticString& StaticString::rstrip(std::string_view delimiters) {
     auto it = _buffer.rbegin();
-    while (delimiters.find(*it) != std::string::npos)
+    while (it != _buffer.rend() && delimiters.find(*it) != std::string::npos)
         ++it;
     const auto len = it - _buffer.rbegin();
     set_size(_buffer.size() - len);
@@ -36,6 +36,7 @@ bool StaticString::starts_with(const std::string_view needle) const {
     return _buffer.compare(0, needle.size(), needle, 0) == 0;
 }
 bool StaticString::ends_with(const std::string_view needle) const {
-    return _buffer.compare(_buffer.size() - needle.size(), _buffer.size(), needle) == 0;
+    if (needle.size() > _buffer.size()) return false;
+    return _buffer.compare(_buffer.size() - needle.size(), needle.size(), needle) == 0;
 }
 } // namespace spn::structure
-- 
2.43.0


From a0254346a34992d33ad66711bc3f12cfcb780546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:30 +0000
Subject: [PATCH 15/59] fix: string view utilities stay within the view, and
 rstrip strips the end

---
 src/spine/core/utils/string.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/spine/core/utils/string.cpp b/src/spine/core/utils/string.cpp
index 4c1ad1d..9482467 100644
--- a/src/spine/core/utils/string.cpp
+++ b/src/spine/core/utils/string.cpp
@@ -9,7 +9,7 @@ namespace spn::core::utils {
 /// Returns a string_view with the beginning of the string `strv` stripped of any char in `delimiters`
 std::string_view lstrip(const std::string_view& strv, const std::string_view& delimiters) {
     auto it = strv.begin();
-    while (delimiters.find(*it) != std::string::npos)
+    while (it != strv.end() && delimiters.find(*it) != std::string::npos)
         ++it;
     const auto len = it - strv.begin();
     return {strv.data() + len, strv.size() - len};
@@ -18,10 +18,10 @@ std::string_view lstrip(const std::string_view& strv, const std::string_view& de
 /// Returns a string_view with the end of the string `strv` stripped of any char in `delimiters`
 std::string_view rstrip(const std::string_view& strv, const std::string_view& delimiters) {
     auto it = strv.rbegin();
-    while (delimiters.find(*it) != std::string::npos)
+    while (it != strv.rend() && delimiters.find(*it) != std::string::npos)
         ++it;
     const auto len = it - strv.rbegin();
-    return {strv.data() + len, strv.size() - len};
+    return {strv.data(), strv.size() - len};
 }
 
 /// Returns true if string `strv` starts with `needle
@@ -31,7 +31,8 @@ bool starts_with(const std::string_view& strv, const std::string_view& needle) {
 
 /// Returns true if string `strv` ends with `needle
 bool ends_with(const std::string_view& strv, const std::string_view& needle) {
-    return strv.compare(strv.size() - needle.size(), strv.size(), needle) == 0;
+    if (needle.size() > strv.size()) return false;
+    return strv.compare(strv.size() - needle.size(), needle.size(), needle) == 0;
 }
 
 /// Find the first occurence of any char in `delimiters` in the string `strv` or return std::string::npos when nothing
-- 
2.43.0


From 9b1790431ed6e29f90c12359d0da4f8aadf21efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:30 +0000
Subject: [PATCH 16/59] fix: to_float does not read past the end of the string
 view

---
 src/spine/core/utils/string.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/spine/core/utils/string.cpp b/src/spine/core/utils/string.cpp
index 9482467..e241277 100644
--- a/src/spine/core/utils/string.cpp
+++ b/src/spine/core/utils/string.cpp
@@ -58,10 +58,11 @@ std::size_t find_first_of(const std::string_view& strv, const std::string_view&
 // }
 
 float to_float(const std::string_view& sv) {
+    const std::string str(sv); // a view is not necessarily null-terminated
     char* end;
-    float result = std::strtof(sv.data(), &end);
+    float result = std::strtof(str.c_str(), &end);
 
-    if (end == sv.data() || *end != '\0') {
+    if (end == str.c_str() || *end != '\0') {
         return 0.0f; // Handle conversion error
     }
 
-- 
2.43.0


From 5e1f3c53cf588ffd5ab06954f61b12e04185a199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:22 +0000
Subject: [PATCH 17/59] fix: whole number units convert exactly instead of
 through a float

---
 src/spine/structure/units/primitives/unit.hpp | 28 +++++++++++++++++--
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/src/spine/structure/units/primitives/unit.hpp b/src/spine/structure/units/primitives/unit.hpp
index 04ae1f7..95b41b1 100644
--- a/src/spine/structure/units/primitives/unit.hpp
+++ b/src/spine/structure/units/primitives/unit.hpp
@@ -4,6 +4,7 @@
 
 #include <cmath>
 #include <cstdint>
+#include <numeric>
 #include <type_traits>
 
 namespace spn::structure::units {
@@ -137,9 +138,30 @@ private:
 
     template<typename MOther>
     ValueType from_other(const Unit<UT, MOther, VT>& other) const {
-        constexpr float ratio = MOther::Magnitude / MT::Magnitude;
-        if constexpr (is_integral()) return std::round(ratio * other.raw());
-        return ratio * other.raw();
+        if constexpr (is_integral()) {
+            constexpr long long common = std::gcd(numerator<MOther>() * denominator<MT>(), //
+                                                  denominator<MOther>() * numerator<MT>());
+            constexpr ValueType multiplier = numerator<MOther>() * denominator<MT>() / common;
+            constexpr ValueType divisor = denominator<MOther>() * numerator<MT>() / common;
+            const ValueType scaled = other.raw() * multiplier;
+            const ValueType remainder = scaled % divisor;
+            if (remainder >= divisor - remainder) return scaled / divisor + 1; // round half away from zero
+            if (-remainder >= divisor + remainder) return scaled / divisor - 1;
+            return scaled / divisor;
+        } else {
+            constexpr float ratio = MOther::Magnitude / MT::Magnitude;
+            return ratio * other.raw();
+        }
+    }
+
+    /// A magnitude relative to the base magnitude as a fraction of whole numbers, for lossless integral conversion
+    template<typename M>
+    static constexpr long long numerator() {
+        return M::Magnitude < 1.0f ? 1 : static_cast<long long>(M::Magnitude);
+    }
+    template<typename M>
+    static constexpr long long denominator() {
+        return M::Magnitude < 1.0f ? static_cast<long long>(1.0f / M::Magnitude + 0.5f) : 1;
     }
 };
 
-- 
2.43.0


From 43d6bea0a386da2107c7670ea0540ae343e19779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:22 +0000
Subject: [PATCH 18/59] fix: whole number units compare without rounding the
 finer one

---
 src/spine/structure/units/primitives/unit.hpp | 21 ++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/spine/structure/units/primitives/unit.hpp b/src/spine/structure/units/primitives/unit.hpp
index 95b41b1..d61d885 100644
--- a/src/spine/structure/units/primitives/unit.hpp
+++ b/src/spine/structure/units/primitives/unit.hpp
@@ -4,6 +4,7 @@
 
 #include <cmath>
 #include <cstdint>
+#include <functional>
 #include <numeric>
 #include <type_traits>
 
@@ -102,7 +103,7 @@ public:
 
     template<typename MOther>
     bool operator==(const Unit<UT, MOther, VT>& other) const {
-        if constexpr (std::is_integral_v<VT>) return _value == from_other(other);
+        if constexpr (std::is_integral_v<VT>) return compare(other, std::equal_to<ValueType>{});
         return approximately_equal(_value, from_other(other));
     }
     template<typename MOther>
@@ -111,19 +112,19 @@ public:
     }
     template<typename MOther>
     bool operator<(const Unit<UT, MOther, VT>& other) const {
-        return _value < from_other(other);
+        return compare(other, std::less<ValueType>{});
     }
     template<typename MOther>
     bool operator>(const Unit<UT, MOther, VT>& other) const {
-        return _value > from_other(other);
+        return compare(other, std::greater<ValueType>{});
     }
     template<typename MOther>
     bool operator<=(const Unit<UT, MOther, VT>& other) const {
-        return _value <= from_other(other);
+        return compare(other, std::less_equal<ValueType>{});
     }
     template<typename MOther>
     bool operator>=(const Unit<UT, MOther, VT>& other) const {
-        return _value >= from_other(other);
+        return compare(other, std::greater_equal<ValueType>{});
     }
 
 private:
@@ -136,6 +137,16 @@ private:
 private:
     ValueType _value = 0;
 
+    /// Compares in the finest magnitude of both, such that whole numbers aren't rounded before they are compared
+    template<typename MOther, typename Compare>
+    bool compare(const Unit<UT, MOther, VT>& other, const Compare& cmp) const {
+        if constexpr (is_integral() && MOther::Magnitude < MT::Magnitude) {
+            return cmp(Unit<UT, MOther, VT>(*this).raw(), other.raw());
+        } else {
+            return cmp(_value, from_other(other));
+        }
+    }
+
     template<typename MOther>
     ValueType from_other(const Unit<UT, MOther, VT>& other) const {
         if constexpr (is_integral()) {
-- 
2.43.0


From 442aae4160527cad92807335430feaf489c16477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:22 +0000
Subject: [PATCH 19/59] fix: the mock clock converts between milliseconds and
 microseconds once

---
 src/spine/platform/implementations/mock.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spine/platform/implementations/mock.hpp b/src/spine/platform/implementations/mock.hpp
index fd890e9..6965583 100644
--- a/src/spine/platform/implementations/mock.hpp
+++ b/src/spine/platform/implementations/mock.hpp
@@ -217,8 +217,8 @@ struct Mock : Platform<Mock, MockConfig, MockGPIO, MockAnalogue, MockUART> {
 
     static void printflush() {}
 
-    static k_time_ms millis() { return k_time_ms(MockStateInstance().millis + MockStateInstance().micros / 1000); }
-    static k_time_us micros() { return k_time_us(MockStateInstance().micros + MockStateInstance().millis * 1000); }
+    static k_time_ms millis() { return MockStateInstance().millis + k_time_ms(MockStateInstance().micros.raw() / 1000); }
+    static k_time_us micros() { return MockStateInstance().micros + k_time_us(MockStateInstance().millis); }
     static void delay_us(k_time_us us) { MockStateInstance().micros += us; }
     static void delay_ms(k_time_ms ms) { MockStateInstance().millis += ms; }
 
-- 
2.43.0


From 6e1ce766dc79adced6472cfb0be212d6513f6f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:44 +0000
Subject: [PATCH 20/59] fix: parsing a time without a number, or one that does
 not fit, yields nothing instead of throwing

---
 src/spine/core/utils/time_repr.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/spine/core/utils/time_repr.cpp b/src/spine/core/utils/time_repr.cpp
index 98643fc..0491a79 100644
--- a/src/spine/core/utils/time_repr.cpp
+++ b/src/spine/core/utils/time_repr.cpp
@@ -2,6 +2,7 @@
 
 // #include <charconv>
 #include <iterator>
+#include <limits>
 #include <numeric>
 #include <optional>
 #include <variant>
@@ -34,9 +35,15 @@ parse_time(const std::string_view input) {
     // Find the position of the first non-digit character
     std::size_t pos = input.find_first_not_of("0123456789");
     if (pos == std::string_view::npos) return std::nullopt; // No unit found
+    if (pos == 0) return std::nullopt; // No value found
 
     // Extract numeric value and unit
-    int value = std::stoi(std::string(input.substr(0, pos)));
+    spnu::KernelTimeRawType value = 0;
+    for (const char c : input.substr(0, pos)) {
+        const spnu::KernelTimeRawType digit = c - '0';
+        if (value > (std::numeric_limits<spnu::KernelTimeRawType>::max() - digit) / 10) return std::nullopt; // Overflow
+        value = value * 10 + digit;
+    }
     std::string_view unit = input.substr(pos);
 
     if (unit == "us") return k_time_us(value);
-- 
2.43.0


From af2d8d62ebf8ac7a6f1f4402870eb4ebe1d021b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:44 +0000
Subject: [PATCH 21/59] fix: the next block of a schedule is the soonest one,
 in whatever order the blocks are listed

---
 src/spine/structure/time/schedule.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/spine/structure/time/schedule.cpp b/src/spine/structure/time/schedule.cpp
index 487c0b0..1c70fc3 100644
--- a/src/spine/structure/time/schedule.cpp
+++ b/src/spine/structure/time/schedule.cpp
@@ -23,10 +23,11 @@ float Schedule::value_at(const k_time_s t) const {
 }
 
 k_time_s Schedule::start_of_next_block(const k_time_s t) const {
+    k_time_s next = k_time_h(24);
     for (auto& b : _blocks) {
-        if (t < b.start) return b.start;
+        if (t < b.start && b.start < next) next = b.start;
     }
-    return k_time_h(24);
+    return next;
 }
 
 } // namespace spn::structure::time
-- 
2.43.0


From 673341b20a56718653fbbb7bfbc1a310df7f9bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:44 +0000
Subject: [PATCH 22/59] fix: DateTime reads the hours, minutes and seconds 08
 and 09 of a time string, and initialises all of its fields

---
 src/spine/structure/time/datetime.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/spine/structure/time/datetime.cpp b/src/spine/structure/time/datetime.cpp
index 806a5f3..096ac91 100644
--- a/src/spine/structure/time/datetime.cpp
+++ b/src/spine/structure/time/datetime.cpp
@@ -129,11 +129,13 @@ DateTime::DateTime(const char* date, const char* time) {
     int year, day;
     sscanf(date, "%4s %2d %4d", month_buff, &day, &year);
     int month = (strstr(month_names, month_buff) - month_names) / 3 + 1;
+    _tm = {};
+    _tm.tm_isdst = -1;
     _tm.tm_year = year - 1900;
     _tm.tm_mon = month - 1;
     _tm.tm_mday = day;
     int hour, min, sec;
-    sscanf(time, "%i:%i:%i", &hour, &min, &sec);
+    sscanf(time, "%d:%d:%d", &hour, &min, &sec);
     _tm.tm_hour = hour;
     _tm.tm_min = min;
     _tm.tm_sec = sec;
-- 
2.43.0


From f49e7ad05ff7985644f42b7e2bae34941d14fd35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:44 +0000
Subject: [PATCH 23/59] fix: a DateTime before the year 2000 does not trip its
 assertion

---
 src/spine/structure/time/datetime.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spine/structure/time/datetime.cpp b/src/spine/structure/time/datetime.cpp
index 096ac91..bdc8cc8 100644
--- a/src/spine/structure/time/datetime.cpp
+++ b/src/spine/structure/time/datetime.cpp
@@ -86,7 +86,7 @@ static uint8_t bcd2bin(uint8_t val) { return static_cast<uint8_t>(val - 6 * (val
  */
 DateTime::DateTime(time_t unix_timestamp)
     : _unix_timestamp{unix_timestamp}, _y2k_timestamp{static_cast<time_t>(unix_timestamp - UNIX_OFFSET)} {
-    spn_assert(unix_timestamp - UNIX_OFFSET <= LONG_MAX);
+    spn_assert(unix_timestamp - static_cast<time_t>(UNIX_OFFSET) <= LONG_MAX);
     gmtime_r(&_unix_timestamp, &_tm);
 }
 
-- 
2.43.0


From 1e74bc858f0de8705ce4a3127a64c1dd3ef929a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:19 +0000
Subject: [PATCH 24/59] fix: destroying an EventSystem empties its whole store,
 not just half of it

---
 src/spine/eventsystem/eventsystem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spine/eventsystem/eventsystem.cpp b/src/spine/eventsystem/eventsystem.cpp
index 4c6337c..1d92e65 100644
--- a/src/spine/eventsystem/eventsystem.cpp
+++ b/src/spine/eventsystem/eventsystem.cpp
@@ -48,7 +48,7 @@ EventSystem::~EventSystem() {
     for (size_t i = 0; i < _map.size(); i++) {
         _map[i].reset();
     }
-    for (size_t i = 0; i < _store.size(); ++i) {
+    while (_store.size() > 0) {
         auto ev = _store.depopulate();
         ev.reset();
     }
-- 
2.43.0


From 3180f549bad0cb4dccd1388267a277ac9e9dfde6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:19 +0000
Subject: [PATCH 25/59] fix: scheduling or triggering when all events are in
 use does not dereference a null event

---
 src/spine/eventsystem/eventsystem.cpp | 1 +
 src/spine/eventsystem/pipeline.cpp    | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/spine/eventsystem/eventsystem.cpp b/src/spine/eventsystem/eventsystem.cpp
index 1d92e65..3487363 100644
--- a/src/spine/eventsystem/eventsystem.cpp
+++ b/src/spine/eventsystem/eventsystem.cpp
@@ -57,6 +57,7 @@ EventSystem::~EventSystem() {
 
 void EventSystem::trigger(const std::shared_ptr<Event>& event) {
     spn_assert(event);
+    if (!event) return; // the store was exhausted
     trigger(*event.get());
 }
 
diff --git a/src/spine/eventsystem/pipeline.cpp b/src/spine/eventsystem/pipeline.cpp
index 6447275..524d512 100644
--- a/src/spine/eventsystem/pipeline.cpp
+++ b/src/spine/eventsystem/pipeline.cpp
@@ -67,6 +67,7 @@ std::shared_ptr<Future> Pipeline::expire() {
 }
 
 void Pipeline::push(std::shared_ptr<Future>&& future) {
+    if (!future) return; // nothing to push: i.e. the store of events was exhausted
     spn_assert(_pipe.size() < _pipe.max_size());
     future->reschedule();
 
-- 
2.43.0


From c612662bedfdcf6ded7ace6df3abd11b81872569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:19 +0000
Subject: [PATCH 26/59] fix: the event loop delays at most the configured
 maximum, which is in microseconds

---
 src/spine/eventsystem/eventsystem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spine/eventsystem/eventsystem.cpp b/src/spine/eventsystem/eventsystem.cpp
index 3487363..bd7c62c 100644
--- a/src/spine/eventsystem/eventsystem.cpp
+++ b/src/spine/eventsystem/eventsystem.cpp
@@ -82,7 +82,7 @@ void EventSystem::loop() {
 
     if (_cfg.delay_between_ticks) {
         if (_pipeline.contains_futures())
-            HAL::delay_ms(std::min(_pipeline.time_until_next_future().raw(), _cfg.max_delay_between_ticks.raw()));
+            HAL::delay_ms(std::min(_pipeline.time_until_next_future(), k_time_ms(_cfg.max_delay_between_ticks)));
         else
             HAL::delay(_cfg.min_delay_between_ticks);
     }
-- 
2.43.0


From 8b711c411af2f892ef2570cb539a592818b1f511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:19 +0000
Subject: [PATCH 27/59] fix: printing an empty pipeline does not trip an
 assertion

---
 src/spine/eventsystem/pipeline.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spine/eventsystem/pipeline.cpp b/src/spine/eventsystem/pipeline.cpp
index 524d512..1a916f3 100644
--- a/src/spine/eventsystem/pipeline.cpp
+++ b/src/spine/eventsystem/pipeline.cpp
@@ -42,7 +42,7 @@ std::string Pipeline::to_string() const {
     pipeline_repr(&result, false);
 
     spn_assert(result.size() <= total_length); // no reallocation
-    spn_assert(result.capacity() == total_length); // no reallocation
+    spn_assert(result.capacity() >= total_length); // no reallocation
     return result;
 }
 
-- 
2.43.0


From e4f555b8c6394b420b4738d608349188240c274d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:09 +0000
Subject: [PATCH 28/59] fix: removing from the middle of a Vector does not
 leave a second copy of its last element behind

---
 src/spine/structure/vector.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/spine/structure/vector.hpp b/src/spine/structure/vector.hpp
index 201df0f..dd8047f 100644
--- a/src/spine/structure/vector.hpp
+++ b/src/spine/structure/vector.hpp
@@ -263,6 +263,7 @@ T Vector<T>::remove(ArrayBase::Size index) {
         auto removed = std::move(this->m_store[pos]);
         m_tail--;
         memmove((char*)&this->m_store[pos], (char*)&this->m_store[pos + 1], (m_tail - pos) * sizeof(T));
+        memset((char*)&this->m_store[m_tail], '\0', sizeof(T)); // its element now lives one slot earlier
         if (m_tail == m_head) {
             m_tail = 0;
             m_head = 0;
-- 
2.43.0


From 23fb545c140cee7ef0ca60ce45e7c87394be1a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:26 +0000
Subject: [PATCH 29/59] fix: an Array that owns its store destroys its elements
 before it frees them

---
 src/spine/structure/array.hpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/spine/structure/array.hpp b/src/spine/structure/array.hpp
index 1b6c158..dedf5e1 100644
--- a/src/spine/structure/array.hpp
+++ b/src/spine/structure/array.hpp
@@ -113,6 +113,14 @@ protected:
     Size m_max_size;
 
 private:
+    /// Destroys the elements of a store that we own, and frees it
+    void release() {
+        if (!m_store_is_internal) return;
+        for (Size i = 0; i < m_max_size; i++)
+            m_store[i].T::~T();
+        std::free(m_store);
+    }
+
     bool m_store_is_internal;
 };
 
@@ -148,10 +156,8 @@ Array<T>::Array(const std::initializer_list<T>& init_values) : Array(init_values
 
 template<typename T>
 Array<T>::~Array() {
-    if (m_store_is_internal) {
-        std::free(m_store);
-        m_store = nullptr;
-    }
+    release();
+    m_store = nullptr;
 }
 
 template<typename T>
@@ -173,7 +179,7 @@ template<typename T>
 Array<T>& Array<T>::operator=(const Array& other) {
     if (this == &other || m_store == other.m_store) return *this; // an alias of our own store changes nothing
     ArrayBase::operator=(other);
-    if (m_store_is_internal) std::free(m_store);
+    release();
     m_store = other.m_store;
     m_max_size = other.m_max_size;
     m_store_is_internal = false; // prevent double free
@@ -185,7 +191,7 @@ Array<T>& Array<T>::operator=(Array&& other) noexcept {
     if (this == &other) return *this;
     ArrayBase::operator=(std::move(other));
     const auto is_alias = m_store == other.m_store;
-    if (m_store_is_internal && !is_alias) std::free(m_store);
+    if (!is_alias) release();
     m_store = other.m_store;
     m_max_size = other.m_max_size;
     m_store_is_internal = other.m_store_is_internal || (is_alias && m_store_is_internal);
-- 
2.43.0


From 2f3db37e11f0c401a84df261c57719a919e69e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:15 +0000
Subject: [PATCH 30/59] fix: pulling in data never overwrites a complete line

---
 src/spine/io/stream/buffered_stream.cpp | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/src/spine/io/stream/buffered_stream.cpp b/src/spine/io/stream/buffered_stream.cpp
index 8606fcd..58e61b5 100644
--- a/src/spine/io/stream/buffered_stream.cpp
+++ b/src/spine/io/stream/buffered_stream.cpp
@@ -25,21 +25,16 @@ bool BufferedStream::drop_next_line(const std::optional<size_t>& discovered_leng
 size_t BufferedStream::length_of_next_line() const { return _input_buffer.length_of_next_line(); }
 size_t BufferedStream::pull_in_data() {
     size_t bytes_read = 0;
-    uint8_t last_char = '\0';
+    uint8_t value = '\0';
 
     while (_stream->available() > 0) {
-        // early break when a delimiter has been found, as to lose no input if possible
-        if (_input_buffer.full()) {
-            if (_input_buffer.delimiters().find(last_char) != std::string::npos)
-                break; // break when the last incoming was a delimiter
-            if (_input_buffer.overrun_space() == 0 && _input_buffer.has_line())
-                break; // break when the buffer just turned full and the buffer already contains a line
-        }
+        // early break when the buffer is full and contains a line, as to lose no input if possible
+        if (_input_buffer.full() && _input_buffer.has_line()) break;
 
-        if (!_stream->read(last_char)) {
+        if (!_stream->read(value)) {
             return bytes_read; // read failure
         }
-        _input_buffer.push(last_char, true);
+        _input_buffer.push(value, true);
         ++bytes_read;
     }
     return bytes_read;
-- 
2.43.0


From 4cd1a57523202d7231acda6f5c9e06f3c03a6e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:15 +0000
Subject: [PATCH 31/59] fix: a byte whose write fails is not lost from the
 output buffer

---
 src/spine/io/stream/buffered_stream.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/spine/io/stream/buffered_stream.cpp b/src/spine/io/stream/buffered_stream.cpp
index 58e61b5..0c2fc7f 100644
--- a/src/spine/io/stream/buffered_stream.cpp
+++ b/src/spine/io/stream/buffered_stream.cpp
@@ -45,7 +45,8 @@ size_t BufferedStream::push_out_data() {
 
     while (_stream->available_for_write() > 0) {
         char v;
-        if (!_output_buffer.pop(v) || !_stream->write(v)) return bytes_written;
+        if (!_output_buffer.peek_at(v, 0) || !_stream->write(v)) return bytes_written;
+        _output_buffer.pop(); // only once it has been written
         ++bytes_written;
     }
     return bytes_written;
-- 
2.43.0


From 685c9ecbda7d50397b1ca8568dddcf9556ed6085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:30 +0000
Subject: [PATCH 32/59] fix: a latch's on and off times count from its last
 change, not from its last reading

---
 src/spine/controller/sr_latch.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/spine/controller/sr_latch.hpp b/src/spine/controller/sr_latch.hpp
index 1e6f2c1..edca2d6 100644
--- a/src/spine/controller/sr_latch.hpp
+++ b/src/spine/controller/sr_latch.hpp
@@ -35,6 +35,7 @@ public:
 
 protected:
     void set(const State state) {
+        if (_value == state) return; // on and off time count from the last change
         _value = state;
         _last_turned.reset();
     }
-- 
2.43.0


From c14893b4cd4c02538e185b767aeec856d51695cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:30 +0000
Subject: [PATCH 33/59] fix: changing a PID's sampling time scales its gains by
 the exact ratio

---
 src/spine/controller/implementations/pid/pid_controller.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spine/controller/implementations/pid/pid_controller.cpp b/src/spine/controller/implementations/pid/pid_controller.cpp
index 6737297..0c2e7ec 100644
--- a/src/spine/controller/implementations/pid/pid_controller.cpp
+++ b/src/spine/controller/implementations/pid/pid_controller.cpp
@@ -111,7 +111,7 @@ void PIDController::set_controller_direction(const PIDController::Direction dire
 void PIDController::set_sampling_time(const k_time_ms sampling_time) {
     // adjust sample
     if (sampling_time > k_time_ms(0)) {
-        float ratio = sampling_time.raw() / _sampling_time.raw();
+        const float ratio = float(sampling_time.raw()) / float(_sampling_time.raw());
         _ki *= ratio;
         _kd /= ratio;
         _sampling_time = sampling_time;
-- 
2.43.0


From 44986a5c4df81fb394b6a6eee2f2373d7a559c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:30 +0000
Subject: [PATCH 34/59] fix: a PID uses the configured proportionality

---
 src/spine/controller/pid.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spine/controller/pid.cpp b/src/spine/controller/pid.cpp
index 3b4334b..0d145bb 100644
--- a/src/spine/controller/pid.cpp
+++ b/src/spine/controller/pid.cpp
@@ -5,7 +5,7 @@ namespace spn::controller {
 PID::PID(PID::Config&& cfg)
     : _cfg(cfg),
       _pid_backend(PIDController(&_input, &_output, &_setpoint, _cfg.tunings.Kp, _cfg.tunings.Ki, _cfg.tunings.Kd,
-                                 PIDController::Proportionality::ON_MEASUREMENT, _cfg.direction)) {
+                                 _cfg.proportionality, _cfg.direction)) {
     spn_assert(k_time_ms(_cfg.sample_interval).raw() > 0);
 }
 
-- 
2.43.0


From dc3bbee14cdb4dd6faca38ac1ecbb87c80b3d168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:30 +0000
Subject: [PATCH 35/59] fix: a PID's tunings are reported as they were set

---
 src/spine/controller/pid.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/spine/controller/pid.hpp b/src/spine/controller/pid.hpp
index 2f5f9ce..0f7cacc 100644
--- a/src/spine/controller/pid.hpp
+++ b/src/spine/controller/pid.hpp
@@ -56,13 +56,12 @@ public:
 
     /// Set the controller's tuning parameters
     void set_tunings(const Tunings& tunings, const Proportionality proportionality = Proportionality::ON_ERROR) {
+        _cfg.tunings = tunings;
         _pid_backend.set_tunings(tunings.Kp, tunings.Ki, tunings.Kd, proportionality);
     }
 
     /// Returns the controller's tuning parameters
-    Tunings tunings() const {
-        return Tunings{.Kp = _pid_backend.Kp(), .Ki = _pid_backend.Ki(), .Kd = _pid_backend.Kd()};
-    }
+    Tunings tunings() const { return _cfg.tunings; }
 
     /// Set latest reading (update happens based on system clock)
     void new_reading(float value);
-- 
2.43.0


From 4eb8d62cada4ec0fa46e801b1013c1bfdd1d1859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:30 +0000
Subject: [PATCH 36/59] fix: autotuning averages over as many cycles as it
 added up

---
 src/spine/controller/implementations/pid/pid_tuner.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/spine/controller/implementations/pid/pid_tuner.cpp b/src/spine/controller/implementations/pid/pid_tuner.cpp
index 26f334b..f55f5aa 100644
--- a/src/spine/controller/implementations/pid/pid_tuner.cpp
+++ b/src/spine/controller/implementations/pid/pid_tuner.cpp
@@ -117,9 +117,11 @@ float PIDAutotuner::do_autotune(float input, k_time_ms ms) {
     if (is_finished()) {
         output = false;
         outputValue = minOutput;
-        kp = pAverage / (cycle - 1);
-        ki = iAverage / (cycle - 1);
-        kd = dAverage / (cycle - 1);
+        if (const auto averaged = cycle - 2; averaged > 0) { // as many as have been added up
+            kp = pAverage / averaged;
+            ki = iAverage / averaged;
+            kd = dAverage / averaged;
+        }
     }
 
     return outputValue;
-- 
2.43.0


From ae18cafc6dc52aa53028fb12d2e35e35ebd83668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:06 +0000
Subject: [PATCH 37/59] fix: a BandPass counts rejections anew after it
 accepted a value at the rejection limit

---
 src/spine/filter/implementations/bandpass.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/spine/filter/implementations/bandpass.hpp b/src/spine/filter/implementations/bandpass.hpp
index 5983670..b2177bf 100644
--- a/src/spine/filter/implementations/bandpass.hpp
+++ b/src/spine/filter/implementations/bandpass.hpp
@@ -74,6 +74,7 @@ public:
                 spn::throw_exception(spn::runtime_exception("BandPass: rejection limit reached"));
             }
             _value = sample;
+            _rejections = 0;
         }
     }
 
-- 
2.43.0


From 9eadc8d7a144fb16b27878cb52c56338855978bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:06 +0000
Subject: [PATCH 38/59] fix: a BandPass has the documented limits,
 mantissa*10^(decades+1)

---
 src/spine/filter/implementations/bandpass.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/spine/filter/implementations/bandpass.hpp b/src/spine/filter/implementations/bandpass.hpp
index b2177bf..078454f 100644
--- a/src/spine/filter/implementations/bandpass.hpp
+++ b/src/spine/filter/implementations/bandpass.hpp
@@ -94,8 +94,9 @@ public:
 protected:
     void update_limits() {
         ValueType compensated_midpoint = _cfg.mode == Mode::RELATIVE ? _value + _cfg.offset : _cfg.offset;
-        _upper = compensated_midpoint + std::pow(_cfg.mantissa * 10, (_cfg.decades + 1));
-        _lower = compensated_midpoint - std::pow(_cfg.mantissa * 10, (_cfg.decades + 1));
+        const ValueType distance = _cfg.mantissa * std::pow(ValueType(10), _cfg.decades + 1);
+        _upper = compensated_midpoint + distance;
+        _lower = compensated_midpoint - distance;
     }
 
     /// Arbitrary value to be used as a default value
-- 
2.43.0


From 61882a462ac61ad7da4b0f19377d4b103b776d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:06 +0000
Subject: [PATCH 39/59] fix: a BandPass takes a sample that equals its default
 value for a value

---
 src/spine/filter/implementations/bandpass.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/spine/filter/implementations/bandpass.hpp b/src/spine/filter/implementations/bandpass.hpp
index 078454f..873c57f 100644
--- a/src/spine/filter/implementations/bandpass.hpp
+++ b/src/spine/filter/implementations/bandpass.hpp
@@ -56,7 +56,7 @@ public:
 
     /// Provide a new sample for filtering (optionally throws if value is out of band)
     void new_sample(const ValueType sample) override {
-        if (_value == DefaultValue) BandPass::reset_to(sample);
+        if (!_has_value) BandPass::reset_to(sample);
         if (_cfg.mode == Mode::RELATIVE) BandPass::update_limits();
 
         if (sample >= _lower && sample <= _upper) {
@@ -89,7 +89,10 @@ public:
     ValueType operator()(ValueType reading) { return value(reading); }
 
     /// Reset the filter's internal value to a provided value (next sample will be filtered based on this value)
-    void reset_to(ValueType reading) override { _value = reading; }
+    void reset_to(ValueType reading) override {
+        _value = reading;
+        _has_value = true;
+    }
 
 protected:
     void update_limits() {
@@ -106,6 +109,7 @@ private:
     const Config _cfg;
 
     ValueType _value = DefaultValue;
+    bool _has_value = false;
     ValueType _lower;
     ValueType _upper;
     int _rejections = 0;
-- 
2.43.0


From 86da12c801b2d450e270d087eafd9f5c47e21bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:06 +0000
Subject: [PATCH 40/59] fix: a filter stack takes samples of its own type

---
 src/spine/filter/filterstack.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spine/filter/filterstack.hpp b/src/spine/filter/filterstack.hpp
index 1baa066..af68c2c 100644
--- a/src/spine/filter/filterstack.hpp
+++ b/src/spine/filter/filterstack.hpp
@@ -28,7 +28,7 @@ public:
     }
 
     /// Take a new sample, returns filtered value
-    ValueType value(const float new_sample) {
+    ValueType value(const ValueType new_sample) {
         ValueType new_value = new_sample;
         for (auto& sf : _filters) {
             spn_assert(sf.get() != nullptr);
-- 
2.43.0


From cb723427bfdbe575ee37ee73a5140e04f96900e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:06 +0000
Subject: [PATCH 41/59] fix: detaching a filter from a filter stack compiles

---
 src/spine/filter/filterstack.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/spine/filter/filterstack.hpp b/src/spine/filter/filterstack.hpp
index af68c2c..1b3b73a 100644
--- a/src/spine/filter/filterstack.hpp
+++ b/src/spine/filter/filterstack.hpp
@@ -24,7 +24,10 @@ public:
     /// Detach a filter for a provided slot's index
     std::unique_ptr<Filter<ValueType>> detach_filter(uint8_t index) {
         spn_expect(index < _filters.size());
-        return index < _filters.size() ? _filters.remove(index) : nullptr;
+        if (index >= _filters.size()) return nullptr;
+        auto filter = std::move(_filters[index]);
+        _filters.erase(_filters.begin() + index);
+        return filter;
     }
 
     /// Take a new sample, returns filtered value
-- 
2.43.0


From 762f0648cd72c4d1a89766fd4fdd79d9c2713d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:06 +0000
Subject: [PATCH 42/59] fix: a filter stack reports its count of pre-allocated
 slots

---
 src/spine/filter/filterstack.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spine/filter/filterstack.hpp b/src/spine/filter/filterstack.hpp
index 1b3b73a..a45242f 100644
--- a/src/spine/filter/filterstack.hpp
+++ b/src/spine/filter/filterstack.hpp
@@ -54,7 +54,7 @@ public:
     }
 
     /// Returns count of pre-allocated filter slots
-    size_t filter_slots() const { return _filters.max_size(); }
+    size_t filter_slots() const { return _filters.capacity(); }
 
     /// Returns count of occupied filter slots
     size_t filter_slots_occupied() const { return _filters.size(); }
-- 
2.43.0


From 3d68dccb8a0d8460dbd8b1fe05a407b7d32f4434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:06 +0000
Subject: [PATCH 43/59] fix: fading ends on the setpoint

---
 src/spine/platform/gpio.cpp | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/src/spine/platform/gpio.cpp b/src/spine/platform/gpio.cpp
index 42ba896..84ce987 100644
--- a/src/spine/platform/gpio.cpp
+++ b/src/spine/platform/gpio.cpp
@@ -10,20 +10,13 @@ void fade_to(void (*set_value)(void*, float), void* imp, float value, float setp
              k_time_ms increment_interval) {
     spn_assert(setpoint >= 0.0f && setpoint <= 1.0f);
 
-    const float decimals_of_diff = 1.0f / increment;
-    float diff = std::round(std::fabs(value - setpoint) * decimals_of_diff) / decimals_of_diff;
-
-    if (diff < increment) {
-        set_value(imp, setpoint);
-        return;
-    }
     const auto invert = value > setpoint ? -1 : 1;
-    while (diff > 0) {
+    while (increment > 0 && std::fabs(value - setpoint) > increment) {
         value = std::clamp(value + invert * increment, 0.0f, 1.0f);
         set_value(imp, value);
-        diff -= increment;
         HAL::delay(increment_interval);
     }
+    set_value(imp, setpoint);
 }
 
 } // namespace spn::platform::detail
-- 
2.43.0


From 193bc8c930368ffc4d46db375892303f46da5550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:06 +0000
Subject: [PATCH 44/59] fix: a log message that does not fit is cut off

---
 src/spine/core/logging.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/spine/core/logging.cpp b/src/spine/core/logging.cpp
index 9413373..11870cd 100644
--- a/src/spine/core/logging.cpp
+++ b/src/spine/core/logging.cpp
@@ -2,6 +2,7 @@
 
 #include "spine/platform/hal.hpp"
 
+#include <algorithm>
 #include <cinttypes>
 
 namespace spn::logging {
@@ -39,19 +40,23 @@ void print(const LogLevel level, const char* filename, const int line_number, co
            const char* fmt, ...) {
     char msg_buffer[SPINE_LOGGING_MAX_MSG_SIZE];
     size_t space_used = 0;
+    // a message that does not fit is cut off
+    const auto use = [&](const int length) {
+        space_used = std::min(space_used + std::max(length, 0), sizeof(msg_buffer) - 1);
+    };
 
 #ifndef SPN_LOG_OVERLOAD
-    space_used += snprintf(msg_buffer, sizeof(msg_buffer), "[%s] [%s] ", get_current_time(), to_string(level));
+    use(snprintf(msg_buffer, sizeof(msg_buffer), "[%s] [%s] ", get_current_time(), to_string(level)));
 #endif
 
     va_list args;
     va_start(args, fmt);
-    space_used += vsnprintf(msg_buffer + space_used, sizeof(msg_buffer) - space_used, fmt, args);
+    use(vsnprintf(msg_buffer + space_used, sizeof(msg_buffer) - space_used, fmt, args));
     va_end(args);
 
     if (level == LogLevel::DEBUG) {
-        space_used += snprintf(msg_buffer + space_used, sizeof(msg_buffer) - space_used, " (%s:%d %s)", filename,
-                               line_number, function_name);
+        snprintf(msg_buffer + space_used, sizeof(msg_buffer) - space_used, " (%s:%d %s)", filename, line_number,
+                 function_name);
     }
 
 #if defined(SPN_LOG_OVERLOAD)
-- 
2.43.0


From 34728657a6901925ba1587ff807e8e38ad9deea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:06 +0000
Subject: [PATCH 45/59] fix: lux has a unit that can be converted and
 calculated with

---
 src/spine/structure/units/illuminance.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spine/structure/units/illuminance.hpp b/src/spine/structure/units/illuminance.hpp
index 95ae4c0..85f8f16 100644
--- a/src/spine/structure/units/illuminance.hpp
+++ b/src/spine/structure/units/illuminance.hpp
@@ -9,4 +9,4 @@ struct TagIlluminance {};
 } // namespace spn::structure::units
 
 // Illuminance, with unit: lux
-using lux = spnu::Unit<spnu::TagIlluminance, spnu::TagIlluminance, spnu::RealRawType>;
+using lux = spnu::Unit<spnu::TagIlluminance, spnu::Base, spnu::RealRawType>;
-- 
2.43.0


From 847678762f65dc4eaefbfdcb442f64a6821b9642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:06 +0000
Subject: [PATCH 46/59] fix: compound units of different units compare by what
 they measure

---
 .../structure/units/primitives/compound_unit.hpp     | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/spine/structure/units/primitives/compound_unit.hpp b/src/spine/structure/units/primitives/compound_unit.hpp
index 654e214..a5ae272 100644
--- a/src/spine/structure/units/primitives/compound_unit.hpp
+++ b/src/spine/structure/units/primitives/compound_unit.hpp
@@ -186,8 +186,8 @@ public:
 
     template<typename OtherNumeratorUnit, typename OtherDenominatorUnit>
     bool operator==(const CompoundUnit<OtherNumeratorUnit, OtherDenominatorUnit>& other) const {
-        if constexpr (std::is_integral_v<ValueType>) return raw() == other.raw();
-        return approximately_equal(raw(), other.raw());
+        if constexpr (std::is_integral_v<ValueType>) return raw() == CompoundUnit(other).raw();
+        return approximately_equal(raw(), CompoundUnit(other).raw());
     }
     template<typename OtherNumeratorUnit, typename OtherDenominatorUnit>
     bool operator!=(const CompoundUnit<OtherNumeratorUnit, OtherDenominatorUnit>& other) const {
@@ -195,19 +195,19 @@ public:
     }
     template<typename OtherNumeratorUnit, typename OtherDenominatorUnit>
     bool operator<(const CompoundUnit<OtherNumeratorUnit, OtherDenominatorUnit>& other) const {
-        return raw() < other.raw();
+        return raw() < CompoundUnit(other).raw();
     }
     template<typename OtherNumeratorUnit, typename OtherDenominatorUnit>
     bool operator>(const CompoundUnit<OtherNumeratorUnit, OtherDenominatorUnit>& other) const {
-        return raw() > other.raw();
+        return raw() > CompoundUnit(other).raw();
     }
     template<typename OtherNumeratorUnit, typename OtherDenominatorUnit>
     bool operator<=(const CompoundUnit<OtherNumeratorUnit, OtherDenominatorUnit>& other) const {
-        return raw() <= other.raw();
+        return raw() <= CompoundUnit(other).raw();
     }
     template<typename OtherNumeratorUnit, typename OtherDenominatorUnit>
     bool operator>=(const CompoundUnit<OtherNumeratorUnit, OtherDenominatorUnit>& other) const {
-        return raw() >= other.raw();
+        return raw() >= CompoundUnit(other).raw();
     }
 
 private:
-- 
2.43.0


From e38d53541f9a082eb7ac6949f93b32ed5ce9674f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:06 +0000
Subject: [PATCH 47/59] fix: simplifying a compound unit keeps negative and
 very small values

---
 src/spine/structure/units/primitives/compound_unit.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/spine/structure/units/primitives/compound_unit.hpp b/src/spine/structure/units/primitives/compound_unit.hpp
index a5ae272..d8fad34 100644
--- a/src/spine/structure/units/primitives/compound_unit.hpp
+++ b/src/spine/structure/units/primitives/compound_unit.hpp
@@ -105,6 +105,7 @@ public:
     /// `scaling_factor` determines precision. A `scaling_factor` of 1e6 makes 6 decimals of precision.
     void simplify(RealRawType scaling_factor = 1e6) {
         const auto gcd = compute_gcd(_numerator.raw(), _denominator.raw(), scaling_factor);
+        if (gcd == 0) return; // nothing in common within the precision asked for
         _numerator /= gcd;
         _denominator /= gcd;
     }
@@ -218,7 +219,7 @@ private:
     }
 
     inline unsigned long scale_to_integer(ValueType num, RealRawType scaling_factor) {
-        return static_cast<unsigned long>(std::round(num * scaling_factor));
+        return static_cast<unsigned long>(std::round(std::fabs(num) * scaling_factor));
     }
     unsigned long compute_gcd(ValueType numerator, ValueType denominator, RealRawType scaling_factor) {
         if constexpr (std::is_integral_v<ValueType>) return std::gcd(numerator, denominator);
-- 
2.43.0


From 4daf9470ac7b439255213253a637c6897cedef13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:41 +0000
Subject: [PATCH 48/59] fix: a reply that fills the output buffer exactly does
 not trip a transaction's assertion

---
 src/spine/io/stream/transaction.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spine/io/stream/transaction.cpp b/src/spine/io/stream/transaction.cpp
index 605ee0a..0682c35 100644
--- a/src/spine/io/stream/transaction.cpp
+++ b/src/spine/io/stream/transaction.cpp
@@ -25,7 +25,7 @@ size_t Transaction::outgoing(char value) {
 }
 size_t Transaction::outgoing(const char* buffer, size_t length) {
     spn_assert(!is_finalized());
-    spn_assert(outgoing_space_left() > length); // todo: instead make it optional to flush out bytes in between
+    spn_assert(outgoing_space_left() >= length); // todo: instead make it optional to flush out bytes in between
     length = std::min(outgoing_space_left(), length);
     size_t bytes_written = _stream->buffered_write(buffer, length);
     _outgoing_queued_bytes += bytes_written;
-- 
2.43.0


From 1674e74e6c22071cef780da88d7440cd5567bfff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:41 +0000
Subject: [PATCH 49/59] fix: constant iterators of a Vector visit its elements,
 not its store

---
 src/spine/structure/vector.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/spine/structure/vector.hpp b/src/spine/structure/vector.hpp
index dd8047f..10bcf58 100644
--- a/src/spine/structure/vector.hpp
+++ b/src/spine/structure/vector.hpp
@@ -69,6 +69,11 @@ public:
     typename Array<T>::const_reverse_iterator rbegin() const;
     typename Array<T>::const_reverse_iterator rend() const;
 
+    typename Array<T>::const_iterator cbegin() const { return begin(); }
+    typename Array<T>::const_iterator cend() const { return end(); }
+    typename Array<T>::const_reverse_iterator crbegin() const { return rbegin(); }
+    typename Array<T>::const_reverse_iterator crend() const { return rend(); }
+
     bool empty() const;
     bool full() const;
     Size size() const;
-- 
2.43.0


From 9eaeb4eec8748e7b5839e71a627ac72e21621290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:41 +0000
Subject: [PATCH 50/59] fix: a Vector that was moved from is empty

---
 src/spine/structure/vector.hpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/spine/structure/vector.hpp b/src/spine/structure/vector.hpp
index 10bcf58..a8201bb 100644
--- a/src/spine/structure/vector.hpp
+++ b/src/spine/structure/vector.hpp
@@ -25,6 +25,10 @@ public:
     Vector(T (&store)[CAP], Size size = 0);
     Vector(Size max_size, T init_value);
     Vector(const std::initializer_list<T>& value_list);
+    Vector(const Vector& other) = default;
+    Vector(Vector&& other) noexcept;
+    Vector& operator=(const Vector& other) = default;
+    Vector& operator=(Vector&& other) noexcept;
 
     Vector& operator=(const std::initializer_list<T>& value_list) noexcept;
 
@@ -116,6 +120,19 @@ Vector<T>::Vector(ArrayBase::Size max_size, T init_value) : Array<T>(max_size, i
 template<typename T>
 Vector<T>::Vector(const std::initializer_list<T>& value_list) : Array<T>(value_list), m_tail(value_list.size()) {}
 
+template<typename T>
+Vector<T>::Vector(Vector&& other) noexcept
+    : Array<T>(std::move(other)), m_head(std::exchange(other.m_head, 0)), m_tail(std::exchange(other.m_tail, 0)) {}
+
+template<typename T>
+Vector<T>& Vector<T>::operator=(Vector&& other) noexcept {
+    if (this == &other) return *this;
+    Array<T>::operator=(std::move(other));
+    m_head = std::exchange(other.m_head, 0);
+    m_tail = std::exchange(other.m_tail, 0);
+    return *this;
+}
+
 template<typename T>
 Vector<T>& Vector<T>::operator=(const std::initializer_list<T>& value_list) noexcept {
     Array<T>::operator=(value_list);
-- 
2.43.0


From 4361a985336eeda0f9d6f353daedf9f851648364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:14 +0000
Subject: [PATCH 51/59] fix: an Arduino UART only reads a byte when there is
 one

---
 src/spine/platform/implementations/arduino.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/spine/platform/implementations/arduino.hpp b/src/spine/platform/implementations/arduino.hpp
index 1381c6b..d3c4fa9 100644
--- a/src/spine/platform/implementations/arduino.hpp
+++ b/src/spine/platform/implementations/arduino.hpp
@@ -253,7 +253,9 @@ public:
 
     size_t read(uint8_t* const buffer, size_t length) override { return _stream_ref->readBytes(buffer, length); }
     bool read(uint8_t& value) override {
-        value = _stream_ref->read();
+        const auto byte = _stream_ref->read(); // negative when there is none
+        if (byte < 0) return false;
+        value = static_cast<uint8_t>(byte);
         return true;
     }
 
-- 
2.43.0


From 0fa5422d6882888640a8adaf43901cca19ab0e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:14 +0000
Subject: [PATCH 52/59] fix: an Arduino analogue output that is fully on stays
 within its resolution

---
 src/spine/platform/implementations/arduino.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spine/platform/implementations/arduino.hpp b/src/spine/platform/implementations/arduino.hpp
index d3c4fa9..0ebe755 100644
--- a/src/spine/platform/implementations/arduino.hpp
+++ b/src/spine/platform/implementations/arduino.hpp
@@ -104,7 +104,7 @@ public:
         spn_assert(value >= 0.0f && value <= 1.0f);
         if (_cfg.active_on_low) value = 1.0f - value;
 
-        analogWrite(_cfg.pin, int(value * powf(2, _cfg.resolution)));
+        analogWrite(_cfg.pin, int(value * (powf(2, _cfg.resolution) - 1)));
     }
 
 private:
-- 
2.43.0


From efe40fc0569a720d49b4bc9f43cfd549571491c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:14 +0000
Subject: [PATCH 53/59] fix: detaching an Arduino interrupt detaches the one
 that was attached

---
 src/spine/platform/implementations/arduino.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/spine/platform/implementations/arduino.hpp b/src/spine/platform/implementations/arduino.hpp
index 0ebe755..5460a55 100644
--- a/src/spine/platform/implementations/arduino.hpp
+++ b/src/spine/platform/implementations/arduino.hpp
@@ -210,7 +210,13 @@ public:
 #endif
     }
 
-    void detach_interrupt() { ::detachInterrupt(_cfg.pin); }
+    void detach_interrupt() {
+#if defined(__AVR_ATmega8__) || defined(__AVR_ATmega168__) || defined(__AVR_ATmega328P__)
+        ::detachInterrupt(_cfg.pin);
+#else
+        ::detachInterrupt(digitalPinToInterrupt(_cfg.pin));
+#endif
+    }
 
 private:
     const Config _cfg;
-- 
2.43.0


From 71acd6efdd1b47f92a80db8f676d29bd95977951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:14 +0000
Subject: [PATCH 54/59] fix: an analogue output reports, and fades from, the
 value that was set on it

---
 src/spine/platform/gpio.hpp                    | 2 +-
 src/spine/platform/implementations/arduino.hpp | 1 +
 src/spine/platform/implementations/mock.hpp    | 1 +
 3 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/spine/platform/gpio.hpp b/src/spine/platform/gpio.hpp
index cc9c4ce..7d6d9f4 100644
--- a/src/spine/platform/gpio.hpp
+++ b/src/spine/platform/gpio.hpp
@@ -61,7 +61,7 @@ public:
         _value = setpoint;
     }
 
-private:
+protected:
     float _value = 0;
 };
 
diff --git a/src/spine/platform/implementations/arduino.hpp b/src/spine/platform/implementations/arduino.hpp
index 5460a55..94af7e2 100644
--- a/src/spine/platform/implementations/arduino.hpp
+++ b/src/spine/platform/implementations/arduino.hpp
@@ -102,6 +102,7 @@ public:
     // value between 0 and 1 where 1 is the logical state ON
     void set_value(float value) {
         spn_assert(value >= 0.0f && value <= 1.0f);
+        _value = value;
         if (_cfg.active_on_low) value = 1.0f - value;
 
         analogWrite(_cfg.pin, int(value * (powf(2, _cfg.resolution) - 1)));
diff --git a/src/spine/platform/implementations/mock.hpp b/src/spine/platform/implementations/mock.hpp
index 6965583..ef48ad4 100644
--- a/src/spine/platform/implementations/mock.hpp
+++ b/src/spine/platform/implementations/mock.hpp
@@ -89,6 +89,7 @@ public:
     // value between 0 and 1 where 1 is the logical state ON
     void set_value(float value) {
         spn_assert(value >= 0.0f && value <= 1.0f);
+        _value = value;
         if (_cfg.active_on_low) value = 1.0f - value;
     }
 
-- 
2.43.0


From e9ce5595e0d5225b842d838045ad72ef1baae685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:14 +0000
Subject: [PATCH 55/59] fix: inputs, outputs and interrupts compile when used
 through their interface

---
 src/spine/platform/gpio.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/spine/platform/gpio.hpp b/src/spine/platform/gpio.hpp
index 7d6d9f4..effd342 100644
--- a/src/spine/platform/gpio.hpp
+++ b/src/spine/platform/gpio.hpp
@@ -30,8 +30,8 @@ template<typename GPIOImp>
 struct DigitalInput {
     using LogicalState = core::LogicalState;
 
-    void initialize() { static_cast<GPIOImp>(this)->initialize(); }
-    LogicalState state() const { return static_cast<GPIOImp>(this)->state(); }
+    void initialize() { static_cast<GPIOImp*>(this)->initialize(); }
+    LogicalState state() const { return static_cast<LogicalState>(static_cast<const GPIOImp*>(this)->state()); }
 };
 
 namespace detail {
@@ -43,7 +43,7 @@ template<typename GPIOImp>
 class AnalogueOutput {
 public:
     /// Initialize a port/pin
-    void initialize() { static_cast<GPIOImp>(this)->initialize(); }
+    void initialize() { static_cast<GPIOImp*>(this)->initialize(); }
 
     /// Set the output to the provided `value`
     void set_value(float value) {
@@ -68,10 +68,10 @@ protected:
 template<typename GPIOImp>
 struct AnalogueInput {
     /// Initialize an analogue input port/pin
-    void initialize() { static_cast<GPIOImp>(this)->initialize(); }
+    void initialize() { static_cast<GPIOImp*>(this)->initialize(); }
 
     /// Reads the Analogue input port/pin
-    float read() { return static_cast<GPIOImp>(this)->read(); }
+    float read() { return static_cast<GPIOImp*>(this)->read(); }
 };
 
 // todo: Add an ADC/DAC configuration blocks to set up stuff like read/write resolution, ref voltage and sampling
@@ -82,15 +82,15 @@ struct Interrupt {
     using TriggerType = core::TriggerType;
 
     /// Intializes the interrupt (doesn't attach it)
-    void initialize() { static_cast<GPIOImp>(this)->initialize(); }
+    void initialize() { static_cast<GPIOImp*>(this)->initialize(); }
 
     /// Attaches the interrupt to the callback.
     void attach_interrupt(void (*callback)() = nullptr, TriggerType trigger = TriggerType::UNDEFINED) {
-        static_cast<GPIOImp>(this)->attach_interrupt(callback, trigger);
+        static_cast<GPIOImp*>(this)->attach_interrupt(callback, trigger);
     }
 
     /// Detaches the interrupt from the callback
-    void detach_interrupt() { static_cast<GPIOImp>(this)->detach_interrupt(); }
+    void detach_interrupt() { static_cast<GPIOImp*>(this)->detach_interrupt(); }
 };
 
 } // namespace spn::platform
-- 
2.43.0


From f64ef69b3ec7f210c35bde5e86fcddc13ec67b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:52 +0000
Subject: [PATCH 56/59] fix: on Zephyr, switching logging off switches errors
 off too

---
 src/spine/platform/implementations/zephyr.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spine/platform/implementations/zephyr.cpp b/src/spine/platform/implementations/zephyr.cpp
index fd40d9c..457f1a8 100644
--- a/src/spine/platform/implementations/zephyr.cpp
+++ b/src/spine/platform/implementations/zephyr.cpp
@@ -29,7 +29,7 @@ void zephyr_set_log_level(spn::logging::LogLevel level) {
     LOG_MODULE_DECLARE(spine, LOG_LEVEL_INF);
 
     switch (level) {
-    case spn::logging::LogLevel::OFF: log_filter_set(log_backend_get_by_name("spine"), 0, 0, LOG_LEVEL_NONE);
+    case spn::logging::LogLevel::OFF: log_filter_set(log_backend_get_by_name("spine"), 0, 0, LOG_LEVEL_NONE); break;
     case spn::logging::LogLevel::ERR: log_filter_set(log_backend_get_by_name("spine"), 0, 0, LOG_LEVEL_ERR); break;
     case spn::logging::LogLevel::WARN: log_filter_set(log_backend_get_by_name("spine"), 0, 0, LOG_LEVEL_WRN); break;
     case spn::logging::LogLevel::INFO: log_filter_set(log_backend_get_by_name("spine"), 0, 0, LOG_LEVEL_INF); break;
-- 
2.43.0


From 05f03aa8b0f399336be7faf364b2e75b63abefca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:52 +0000
Subject: [PATCH 57/59] fix: on Zephyr, a delay in microseconds is not cut to
 whole milliseconds

---
 src/spine/platform/implementations/zephyr.hpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/spine/platform/implementations/zephyr.hpp b/src/spine/platform/implementations/zephyr.hpp
index 5580703..e9a730d 100644
--- a/src/spine/platform/implementations/zephyr.hpp
+++ b/src/spine/platform/implementations/zephyr.hpp
@@ -38,11 +38,8 @@ struct Zephyr : Platform<Zephyr, ZephyrConfig> {
     static k_time_ms millis() { return k_time_ms(k_uptime_get()); }
     static k_time_us micros() { return k_time_us(k_ticks_to_us_near32(k_uptime_ticks())); }
     static void delay_us(k_time_us us) {
-        if (us.raw() >= 1000) {
-            k_msleep(us.raw() / 1000);
-        } else {
-            k_busy_wait(us.raw()); // Busy wait for shorter delays
-        }
+        if (us.raw() >= 1000) k_msleep(us.raw() / 1000);
+        k_busy_wait(us.raw() % 1000); // Busy wait for shorter delays
     }
     static void delay_ms(k_time_ms ms) { k_msleep(ms.raw()); }
 };
-- 
2.43.0


From bc31507e81329f9f6d15bb226c3961530cc926ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:00:06 +0000
Subject: [PATCH 58/59] fix: structure::Stack cannot be instantiated, as it
 derives from a Vector besides holding one

---
 src/spine/structure/stack.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spine/structure/stack.hpp b/src/spine/structure/stack.hpp
index 58aa474..455a221 100644
--- a/src/spine/structure/stack.hpp
+++ b/src/spine/structure/stack.hpp
@@ -6,7 +6,7 @@ namespace spn::structure {
 
 template<typename T>
 /// A Vector that only allows Last-In-First-Out access order.
-class Stack : public Vector<T> {
+class Stack {
 public:
     using Size = ArrayBase::Size;
 
-- 
2.43.0


From 8c58d3ff7e343ced21ac0e8443011f43e501562b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:00:10 +0000
Subject: [PATCH 59/59] fix: Stack::pop() keeps the element it pops alive

---
 src/spine/structure/stack.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spine/structure/stack.hpp b/src/spine/structure/stack.hpp
index 455a221..25d50fb 100644
--- a/src/spine/structure/stack.hpp
+++ b/src/spine/structure/stack.hpp
@@ -16,7 +16,7 @@ public:
     void push(T& element) { emplace(std::forward<T>(element)); }
 
     /// Pop an element from the stack.
-    void pop() { store.pop_back(); }
+    void pop() { const auto _ = store.pop_back(); }
 
     /// Returns a reference to the element on top without removing it (dangerous!).
     T& top() {
-- 
2.43.0

