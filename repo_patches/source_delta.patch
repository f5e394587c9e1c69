From 24b5189288d8e2d8ad9e95effc05388a57ef4fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:10 +0000
Subject: [PATCH 01/40] fix: resize(0) of vector and valarray empties the
 container

---
 include/nanovalarray.h | 4 ----
 include/nanovector.h   | 4 ----
 2 files changed, 8 deletions(-)

diff --git a/include/nanovalarray.h b/include/nanovalarray.h
index dfb92ac..7f65934 100644
--- a/include/nanovalarray.h
+++ b/include/nanovalarray.h
@@ -82,10 +82,6 @@ class valarray {
 
   NANOSTL_HOST_AND_DEVICE_QUAL
   void resize(size_type count) {
-    if (count < 1) {
-      return;
-    }
-
     if (count > capacity()) {
       // TODO(LTE): Use memcpy() or realloc() like functionality to speed up
       // resizing.
diff --git a/include/nanovector.h b/include/nanovector.h
index 130f3d9..33ad3bc 100644
--- a/include/nanovector.h
+++ b/include/nanovector.h
@@ -82,10 +82,6 @@ class vector {
   }
 
   NANOSTL_HOST_AND_DEVICE_QUAL void resize(size_type count) {
-    if (count < 1) {
-      return;
-    }
-
     if (count > capacity()) {
       // TODO(LTE): Use memcpy() or realloc() like functionality to speed up
       // resizing.
-- 
2.43.0


From 82104bf0bb43a247322021ee0db15501f26272b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:10 +0000
Subject: [PATCH 02/40] fix: resize() of vector and valarray value-initializes
 the new elements

---
 include/nanovalarray.h | 4 ++++
 include/nanovector.h   | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/include/nanovalarray.h b/include/nanovalarray.h
index 7f65934..17f0600 100644
--- a/include/nanovalarray.h
+++ b/include/nanovalarray.h
@@ -107,6 +107,10 @@ class valarray {
       capacity_ = new_capacity;
     }
 
+    for (size_type i = size_; i < count; i++) {
+      elements_[i] = value_type();
+    }
+
     size_ = count;
   }
 
diff --git a/include/nanovector.h b/include/nanovector.h
index 33ad3bc..b876b67 100644
--- a/include/nanovector.h
+++ b/include/nanovector.h
@@ -107,6 +107,10 @@ class vector {
       capacity_ = new_capacity;
     }
 
+    for (size_type i = size_; i < count; i++) {
+      elements_[i] = value_type();
+    }
+
     size_ = count;
   }
 
-- 
2.43.0


From ede8d2f1cf725078f5576f7a3bd496a08835dce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:10 +0000
Subject: [PATCH 03/40] fix: erase() of vector and valarray returns the
 position after the erased element

---
 include/nanovalarray.h | 5 ++---
 include/nanovector.h   | 5 ++---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/include/nanovalarray.h b/include/nanovalarray.h
index 17f0600..460de6b 100644
--- a/include/nanovalarray.h
+++ b/include/nanovalarray.h
@@ -149,9 +149,8 @@ class valarray {
 
   NANOSTL_HOST_AND_DEVICE_QUAL
   inline iterator erase(iterator pos) {
-    while ((pos + 1) != end()) {
-      (*pos) = *(pos + 1);
-      pos++;
+    for (iterator it = pos; (it + 1) != end(); ++it) {
+      (*it) = *(it + 1);
     }
     size_--;
 
diff --git a/include/nanovector.h b/include/nanovector.h
index b876b67..995068a 100644
--- a/include/nanovector.h
+++ b/include/nanovector.h
@@ -150,9 +150,8 @@ class vector {
   }
 
   inline iterator erase(iterator pos) {
-    while ((pos + 1) != end()) {
-      (*pos) = *(pos + 1);
-      pos++;
+    for (iterator it = pos; (it + 1) != end(); ++it) {
+      (*it) = *(it + 1);
     }
     size_--;
 
-- 
2.43.0


From ebc7456393ff35b994f725e9ff44517165038d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:27 +0000
Subject: [PATCH 04/40] fix: vector::push_back accepts a reference to one of
 its own elements

---
 include/nanovector.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/nanovector.h b/include/nanovector.h
index 995068a..4d68bc9 100644
--- a/include/nanovector.h
+++ b/include/nanovector.h
@@ -115,8 +115,9 @@ class vector {
   }
 
   NANOSTL_HOST_AND_DEVICE_QUAL void push_back(const value_type& val) {
+    const value_type tmp(val);  // `val` may be an element of this vector.
     resize(size() + 1);
-    elements_[size_ - 1] = val;
+    elements_[size_ - 1] = tmp;
   }
 
   // void push_back(value_type &val); // C++11
-- 
2.43.0


From bf1ae44049bb44109cf58f3279f0363091196175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:27 +0000
Subject: [PATCH 05/40] fix: empty() is true for an empty string

---
 include/nanostring.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nanostring.h b/include/nanostring.h
index 8b99b55..8fcc6c1 100644
--- a/include/nanostring.h
+++ b/include/nanostring.h
@@ -94,7 +94,7 @@ class basic_string {
   }
 
   NANOSTL_HOST_AND_DEVICE_QUAL
-  bool empty() const { return data_.size() == 0; }
+  bool empty() const { return size() == 0; }
 
   NANOSTL_HOST_AND_DEVICE_QUAL
   size_type size() const {
-- 
2.43.0


From bdd557348e0456268174e53bd5300628893193dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:27 +0000
Subject: [PATCH 06/40] fix: string range and count constructors terminate the
 string and take a half-open range

---
 include/nanostring.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/nanostring.h b/include/nanostring.h
index 8fcc6c1..a2b8607 100644
--- a/include/nanostring.h
+++ b/include/nanostring.h
@@ -79,11 +79,12 @@ class basic_string {
 
   NANOSTL_HOST_AND_DEVICE_QUAL
   basic_string(const charT *first, const charT *last) {
-    const char *s = first;
-    while (s && (s <= last)) {
+    const charT *s = first;
+    while (s && (s < last)) {
       data_.push_back(*s);
       s++;
     }
+    data_.push_back('\0');
   }
 
   NANOSTL_HOST_AND_DEVICE_QUAL
@@ -91,6 +92,7 @@ class basic_string {
     for (size_type i = 0; i < count; i++) {
       data_.push_back(s[i]);
     }
+    data_.push_back('\0');
   }
 
   NANOSTL_HOST_AND_DEVICE_QUAL
-- 
2.43.0


From 1220a05a23be253c39674051cdae9448204e0d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:27 +0000
Subject: [PATCH 07/40] fix: appending a string to itself

---
 include/nanostring.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/nanostring.h b/include/nanostring.h
index a2b8607..6c7fb73 100644
--- a/include/nanostring.h
+++ b/include/nanostring.h
@@ -203,6 +203,11 @@ basic_string<charT> basic_string<charT>::operator+(
 template <class charT>
 basic_string<charT> &basic_string<charT>::operator+=(
     const basic_string<charT> &s) {
+  if (this == &s) {
+    const basic_string<charT> tmp(s);
+    return (*this) += tmp;
+  }
+
   // remove '\0'
   if (data_.size() < 1) {
     // this should not be happen
-- 
2.43.0


From 104e045fdc8f73b0c2209604e06c0b57145e9cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:45:55 +0000
Subject: [PATCH 08/40] fix: map::begin() is the smallest key, not the root of
 the tree

---
 include/nanomap.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/nanomap.h b/include/nanomap.h
index 3c30785..c01942a 100644
--- a/include/nanomap.h
+++ b/include/nanomap.h
@@ -126,7 +126,11 @@ class map {
   // accessors:
 
   NANOSTL_HOST_AND_DEVICE_QUAL
-  iterator begin() { return iterator(this, root); }
+  iterator begin() {
+    Node* t = root;
+    while (t && t->ch[0]) t = t->ch[0];
+    return iterator(this, t);
+  }
 
   NANOSTL_HOST_AND_DEVICE_QUAL
   iterator end() { return iterator(this, 0); }
-- 
2.43.0


From 1d621c00c973c343e1843c7d6ac81bd4774e2f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:45:55 +0000
Subject: [PATCH 09/40] fix: map iterator comparison with end() dereferenced a
 null pointer

---
 include/nanomap.h | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/include/nanomap.h b/include/nanomap.h
index c01942a..409d75e 100644
--- a/include/nanomap.h
+++ b/include/nanomap.h
@@ -98,17 +98,12 @@ class map {
 
     NANOSTL_HOST_AND_DEVICE_QUAL
     bool operator==(const iterator& rhs) const {
-      if (rhs.isEnd() && this->isEnd()) return true;
-      return *rhs == this->p->val;
+      return p == rhs.p;
     }
 
     NANOSTL_HOST_AND_DEVICE_QUAL
     bool operator!=(const iterator& rhs) const {
-      if (rhs.isEnd() && this->isEnd())
-        return false;
-      else if (rhs.isEnd() || this->isEnd())
-        return true;
-      return *rhs != this->p->val;
+      return p != rhs.p;
     }
 
     NANOSTL_HOST_AND_DEVICE_QUAL
-- 
2.43.0


From 400d3f7ced055b1f5b9f8643d403862bc73cfe9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:45:55 +0000
Subject: [PATCH 10/40] fix: const map lookups (find, upper_bound, end) compile

---
 include/nanomap.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nanomap.h b/include/nanomap.h
index 409d75e..43cd3e9 100644
--- a/include/nanomap.h
+++ b/include/nanomap.h
@@ -76,12 +76,12 @@ class map {
   };
 
   class iterator {
-    map<Key, T>* mp;
+    const map<Key, T>* mp;
     Node* p;
 
    public:
     NANOSTL_HOST_AND_DEVICE_QUAL
-    iterator(map<Key, T>* _mp = 0, Node* _p = 0) : mp(_mp), p(_p) {}
+    iterator(const map<Key, T>* _mp = 0, Node* _p = 0) : mp(_mp), p(_p) {}
 
     NANOSTL_HOST_AND_DEVICE_QUAL
     iterator& operator++() {
-- 
2.43.0


From bfecfbbcdf0d83c17e0c621b15221b220f8ff365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:45:55 +0000
Subject: [PATCH 11/40] fix: copying or assigning a map copies its elements
 (both maps freed the same nodes)

---
 include/nanomap.h | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/include/nanomap.h b/include/nanomap.h
index 43cd3e9..5dd2b05 100644
--- a/include/nanomap.h
+++ b/include/nanomap.h
@@ -115,6 +115,19 @@ class map {
   NANOSTL_HOST_AND_DEVICE_QUAL
   map() { root = 0; }
 
+  NANOSTL_HOST_AND_DEVICE_QUAL
+  map(const map& rhs) { root = __copy(rhs.root); }
+
+  NANOSTL_HOST_AND_DEVICE_QUAL
+  map& operator=(const map& rhs) {
+    if (this != &rhs) {
+      Node* copied = __copy(rhs.root);
+      __delete(root);
+      root = copied;
+    }
+    return *this;
+  }
+
   NANOSTL_HOST_AND_DEVICE_QUAL
   ~map() { __delete(root); }
 
@@ -220,6 +233,16 @@ class map {
     return __upper_bound(t->ch[1], key);
   }
 
+  NANOSTL_HOST_AND_DEVICE_QUAL
+  static Node* __copy(const Node* t) {
+    if (!t) return 0;
+    Node* n = new Node(t->val);
+    n->pri = t->pri;
+    n->ch[0] = __copy(t->ch[0]);
+    n->ch[1] = __copy(t->ch[1]);
+    return n;
+  }
+
   NANOSTL_HOST_AND_DEVICE_QUAL
   void __delete(Node* t) {
     if (!t) return;
-- 
2.43.0


From f33177b8511e50bac20b6ef269b0b1b801e94432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:45:55 +0000
Subject: [PATCH 12/40] hook: let a model checker choose the priorities of map
 nodes (NANOSTL_VERIF_HOOKS)

---
 include/nanomap.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/nanomap.h b/include/nanomap.h
index 5dd2b05..fbe0108 100644
--- a/include/nanomap.h
+++ b/include/nanomap.h
@@ -49,6 +49,9 @@ typedef unsigned int priority_type;
 
 // https://ja.wikipedia.org/wiki/Xorshift
 static inline priority_type priority_rand() {
+#ifdef NANOSTL_VERIF_HOOKS
+  return NANOSTL_VERIF_MAP_PRIORITY();  // the model checker chooses the shape
+#endif
   static priority_type y = 2463534242;
   y = y ^ (y << 13);
   y = y ^ (y >> 17);
-- 
2.43.0


From 824abab4ed8cccfa3704b1fd6bfa8b60c68055d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:49:18 +0000
Subject: [PATCH 13/40] fix: to_string(int) overran its buffer on negative
 10-digit values and negated INT_MIN

---
 include/nanostring.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/nanostring.h b/include/nanostring.h
index 6c7fb73..92a5724 100644
--- a/include/nanostring.h
+++ b/include/nanostring.h
@@ -294,9 +294,11 @@ string to_string(int value) {
     }
   };
 
-  char buffer[numeric_limits<int>::digits10 + 2];  // +2 for sign and null
+  // +3 for the leading digit not counted by digits10, sign and null
+  char buffer[numeric_limits<int>::digits10 + 3];
 
-  int n = (value < 0) ? -value : value;  // abs
+  unsigned int n = value;
+  if (value < 0) n = 0u - n;  // abs
   int i = 0;
   int base = 10;
   while (n) {
-- 
2.43.0


From 07c8ad68bf72d5e41213da260ef55f7a42b947eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:49:18 +0000
Subject: [PATCH 14/40] fix: to_string(int64_t) truncated its argument to int

---
 include/nanostring.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/nanostring.h b/include/nanostring.h
index 92a5724..8d92b1a 100644
--- a/include/nanostring.h
+++ b/include/nanostring.h
@@ -344,9 +344,11 @@ string to_string(int64_t value) {
     }
   };
 
-  char buffer[numeric_limits<int64_t>::digits10 + 2];  // +2 for sign and null
+  // +3 for the leading digit not counted by digits10, sign and null
+  char buffer[numeric_limits<int64_t>::digits10 + 3];
 
-  int n = (value < 0) ? -value : value;  // abs
+  uint64_t n = value;
+  if (value < 0) n = 0ull - n;  // abs
   int i = 0;
   int base = 10;
   while (n) {
-- 
2.43.0


From ee9e5ddcb1a4b493ac5c878b0e76b01a3acc0557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:49:18 +0000
Subject: [PATCH 15/40] fix: define to_string(unsigned int) and
 to_string(uint64_t)

---
 include/nanostring.h | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/include/nanostring.h b/include/nanostring.h
index 8d92b1a..867bb17 100644
--- a/include/nanostring.h
+++ b/include/nanostring.h
@@ -378,6 +378,26 @@ string to_string(int64_t value) {
   return string(buffer);
 }
 
+NANOSTL_HOST_AND_DEVICE_QUAL
+string to_string(uint64_t value) {
+  // +2 for the leading digit not counted by digits10, and null
+  char buffer[numeric_limits<uint64_t>::digits10 + 2];
+  char *p = buffer + sizeof(buffer) - 1;
+  *p = '\0';
+
+  do {
+    *--p = '0' + static_cast<char>(value % 10);
+    value = value / 10;
+  } while (value);
+
+  return string(p);
+}
+
+NANOSTL_HOST_AND_DEVICE_QUAL
+string to_string(unsigned int value) {
+  return to_string(static_cast<uint64_t>(value));
+}
+
 // TODO: Move implementation to .cc and remove `static`
 NANOSTL_HOST_AND_DEVICE_QUAL
 string to_string(float value) {
-- 
2.43.0


From 4f3dd3c1fe9082909121a8048284bb46a3ccb3ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:49:18 +0000
Subject: [PATCH 16/40] fix: define stof() with the ryu parser, as documented

---
 include/nanostring.h | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/include/nanostring.h b/include/nanostring.h
index 867bb17..1b35c0e 100644
--- a/include/nanostring.h
+++ b/include/nanostring.h
@@ -415,7 +415,6 @@ string to_string(double value) {
   return string(buf);
 }
 
-#if 0
 NANOSTL_HOST_AND_DEVICE_QUAL
 float stof(const nanostl::string &str, nanostl::size_t *idx) {
   (void)idx;  // TODO(LTE):
@@ -429,8 +428,6 @@ float stof(const nanostl::string &str, nanostl::size_t *idx) {
 
   return value;
 }
-#else
-#endif
 
 NANOSTL_HOST_AND_DEVICE_QUAL
 float stod(const nanostl::string &str, nanostl::size_t *idx) {
-- 
2.43.0


From a37c9aa31d2d375e7800bf8ae6bb91b7ab358e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:49:18 +0000
Subject: [PATCH 17/40] fix: stod() returns double

---
 include/nanostring.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nanostring.h b/include/nanostring.h
index 1b35c0e..255f98d 100644
--- a/include/nanostring.h
+++ b/include/nanostring.h
@@ -265,7 +265,7 @@ NANOSTL_HOST_AND_DEVICE_QUAL
 float stof(const nanostl::string &str, nanostl::size_t *idx = nullptr);
 
 NANOSTL_HOST_AND_DEVICE_QUAL
-float stod(const nanostl::string &str, nanostl::size_t *idx = nullptr);
+double stod(const nanostl::string &str, nanostl::size_t *idx = nullptr);
 
 #if defined(NANOSTL_IMPLEMENTATION)
 #ifndef NANOSTL_STRING_IMPLEMENTATION
@@ -430,7 +430,7 @@ float stof(const nanostl::string &str, nanostl::size_t *idx) {
 }
 
 NANOSTL_HOST_AND_DEVICE_QUAL
-float stod(const nanostl::string &str, nanostl::size_t *idx) {
+double stod(const nanostl::string &str, nanostl::size_t *idx) {
   (void)idx;  // TODO(LTE):
   double value;
   ryu::RyuStatus ret = ryu::s2d_n(str.c_str(), str.size(), &value);
-- 
2.43.0


From dae7f98d56cc813d6add92e1e0246bbf3a9efee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:14:12 +0000
Subject: [PATCH 18/40] fix: define swap(), which nanotype_traits.h declares
 and unique_ptr::swap calls

---
 include/nanotype_traits.h | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/include/nanotype_traits.h b/include/nanotype_traits.h
index e80dde9..5d081ca 100644
--- a/include/nanotype_traits.h
+++ b/include/nanotype_traits.h
@@ -1247,6 +1247,29 @@ struct __is_nothrow_swappable
 {
 };
 
+// swap (declared above)
+
+template <class _Tp>
+inline __swap_result_t<_Tp>
+swap(_Tp& __x, _Tp& __y) __NANOSTL_NOEXCEPT_(is_nothrow_move_constructible<_Tp>::value &&
+                                    is_nothrow_move_assignable<_Tp>::value)
+{
+    _Tp __t(nanostl::move(__x));
+    __x = nanostl::move(__y);
+    __y = nanostl::move(__t);
+}
+
+template<class _Tp, size_t _Np>
+inline
+typename enable_if<
+    __is_swappable<_Tp>::value
+>::type
+swap(_Tp (&__a)[_Np], _Tp (&__b)[_Np]) __NANOSTL_NOEXCEPT_(__is_nothrow_swappable<_Tp>::value)
+{
+    for (size_t __i = 0; __i != _Np; ++__i)
+        swap(__a[__i], __b[__i]);
+}
+
 // is_trivially_constructible
 
 template <class _Tp, class... _Args>
-- 
2.43.0


From 263523973c0fcf6a8a8f43ad696ab6d6fb43e607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:40:33 +0000
Subject: [PATCH 19/40] fix: fabs(-0.0) is +0.0

---
 include/nanomath.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/nanomath.h b/include/nanomath.h
index 8d23def..4e523ac 100644
--- a/include/nanomath.h
+++ b/include/nanomath.h
@@ -92,14 +92,13 @@ static inline bool __is_subnormal(double arg) {
 
 template <typename T>
 static inline T fabs(T num) {
-  // TODO(LTE): Handle +0 and -0 case correctly.
   // TODO(LTE): Handle +inf and -inf case correctly.
 
   if (num < static_cast<T>(0)) {
     return -num;
   }
 
-  return num;
+  return num + static_cast<T>(0);  // -0 -> +0
 }
 
 // https://stackoverflow.com/questions/8377412/ceil-function-how-can-we-implement-it-ourselves
-- 
2.43.0


From da2a3c2202058f614ccd0d08fa0c5c5b3c18237b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:40:33 +0000
Subject: [PATCH 20/40] fix: floor() and ceil() of tiny and large values

---
 include/nanomath.h | 30 +++++++++++-------------------
 1 file changed, 11 insertions(+), 19 deletions(-)

diff --git a/include/nanomath.h b/include/nanomath.h
index 4e523ac..1f76fe0 100644
--- a/include/nanomath.h
+++ b/include/nanomath.h
@@ -102,35 +102,27 @@ static inline T fabs(T num) {
 }
 
 // https://stackoverflow.com/questions/8377412/ceil-function-how-can-we-implement-it-ourselves
-// FIXME(LTE): Won't work for large float value.
 template <typename T>
 static inline T ceil(T num) {
-  int inum = int(num);
-  T diff = num - static_cast<T>(inum);
-  if (fabs(diff) < nanostl::numeric_limits<T>::epsilon()) {
-    return inum;
+  // 2^52 or larger(also inf and NaN) has no fractional part.
+  if (!(fabs(static_cast<double>(num)) < 4503599627370496.0)) {
+    return num;
   }
 
-  if (num > static_cast<T>(0)) {
-    return inum + 1;
-  } else {
-    return inum;
-  }
+  const T inum = static_cast<T>(static_cast<long long>(num));
+  return (inum < num) ? inum + static_cast<T>(1) : inum;
 }
 
 // https://stackoverflow.com/questions/5122993/floor-int-function-implementaton
 template <typename T>
 static inline T floor(T x) {
-  if (x >= static_cast<T>(0)) {
-    return int(x);
-  } else {
-    int y = int(x);
-    if (fabs(static_cast<T>(y) - x) < nanostl::numeric_limits<T>::epsilon()) {
-      return y;
-    } else {
-      return y - 1;
-    }
+  // 2^52 or larger(also inf and NaN) has no fractional part.
+  if (!(fabs(static_cast<double>(x)) < 4503599627370496.0)) {
+    return x;
   }
+
+  const T y = static_cast<T>(static_cast<long long>(x));
+  return (y > x) ? y - static_cast<T>(1) : y;
 }
 
 static inline bool isfinite(float x) {
-- 
2.43.0


From 5c511ad1c03b2f8a82e110ddb13b36bef8c70892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:40:33 +0000
Subject: [PATCH 21/40] fix: pow() and cbrt() of values below FLT_EPSILON
 returned 0

---
 include/nanomath.h | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/include/nanomath.h b/include/nanomath.h
index 1f76fe0..1ac6848 100644
--- a/include/nanomath.h
+++ b/include/nanomath.h
@@ -502,10 +502,8 @@ static inline float log10(const float& x) {
 
 // fast_safe_pow
 static inline float pow(float x, float y) {
-  if (fabs(y) < nanostl::numeric_limits<float>::epsilon())
-    return 1.0f;  // x^0=1
-  if (fabs(x) < nanostl::numeric_limits<float>::epsilon())
-    return 0.0f;  // 0^y=0
+  if (__is_zero(y)) return 1.0f;  // x^0=1
+  if (__is_zero(x)) return 0.0f;  // 0^y=0
   // be cheap & exact for special case of squaring and identity
   if (y == 1.0f) return x;
   if (y == 2.0f) {
@@ -681,8 +679,7 @@ static inline float cbrt(float x) {
   // 12 max ulp
   a = 0.333333333f * (2.0f * a + x0 / (a * a));  // Newton step.
   a = 0.333333333f * (2.0f * a + x0 / (a * a));  // Newton step again.
-  a = (fabs(x0) < nanostl::numeric_limits<float>::epsilon()) ? 0
-                                                             : a;  // Fix 0 case
+  a = __is_zero(x0) ? 0 : a;  // Fix 0 case
   return copysign(a, x);
 }
 
-- 
2.43.0


From ddc7f5b83a1a219abfc241ff0933a9d45b82ac52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:40:33 +0000
Subject: [PATCH 22/40] fix: log() and log10() of a negative value is NaN

---
 include/nanomath.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nanomath.h b/include/nanomath.h
index 1ac6848..3d7392c 100644
--- a/include/nanomath.h
+++ b/include/nanomath.h
@@ -470,7 +470,7 @@ static inline float log(const float& x) {
   }
 
   if (x < 0.0f) {
-    return nanostl::numeric_limits<float>::infinity();
+    return nanostl::numeric_limits<float>::quiet_NaN();
   }
 
   // Examined 2130706432 values of logf on [1.17549435e-38,3.40282347e+38]:
@@ -492,7 +492,7 @@ static inline float log10(const float& x) {
   }
 
   if (x < 0.0f) {
-    return nanostl::numeric_limits<float>::infinity();
+    return nanostl::numeric_limits<float>::quiet_NaN();
   }
 
   // Examined 2130706432 values of log10f on [1.17549435e-38,3.40282347e+38]:
-- 
2.43.0


From 74810229d07ec260f5f7e069f429afea68bd5919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:40:33 +0000
Subject: [PATCH 23/40] fix: sqrt(inf) is inf and sqrt(-inf) is NaN

---
 include/nanomath.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/nanomath.h b/include/nanomath.h
index 3d7392c..6b38054 100644
--- a/include/nanomath.h
+++ b/include/nanomath.h
@@ -294,15 +294,15 @@ static inline float sqrt(const float x) {
     return 1.0f;               // +0
   }
 
-  // -inf
-  if ((x < 0.0f) && nanostl::isinf(x)) {
-    return x;
-  }
-
   if (x < 0.0f) {
     return nanostl::numeric_limits<float>::quiet_NaN();
   }
 
+  // +inf
+  if (nanostl::isinf(x)) {
+    return x;
+  }
+
   // Faster sqrt using Sqrt2 descrived in:
   // https://www.codeproject.com/Articles/69941/Best-Square-Root-Method-Algorithm-Function-Precisi
 
-- 
2.43.0


From 2d1b8f001585a08617ac9e405131a1968fe3b4a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:49:58 +0000
Subject: [PATCH 24/40] fix: is_union was never true and is_empty did not
 compile for final classes and unions

---
 include/nanotype_traits.h | 22 +++-------------------
 1 file changed, 3 insertions(+), 19 deletions(-)

diff --git a/include/nanotype_traits.h b/include/nanotype_traits.h
index 5d081ca..796caff 100644
--- a/include/nanotype_traits.h
+++ b/include/nanotype_traits.h
@@ -792,7 +792,7 @@ struct __is_implicitly_default_constructible<_Tp, decltype(__test_implicit_defau
 
 // is_union
 
-template <class _Tp> struct __libcpp_union : public false_type {};
+template <class _Tp> struct __libcpp_union : public integral_constant<bool, __is_union(_Tp)> {};
 template <class _Tp> struct _NANOSTL_TEMPLATE_VIS is_union
     : public __libcpp_union<typename remove_cv<_Tp>::type> {};
 
@@ -811,24 +811,8 @@ template <class _Tp> struct _NANOSTL_TEMPLATE_VIS is_class
 
 // is_empty
 
-template <class _Tp>
-struct __is_empty1
-    : public _Tp
-{
-    double __lx;
-};
-
-struct __is_empty2
-{
-    double __lx;
-};
-
-template <class _Tp, bool = is_class<_Tp>::value>
-struct __libcpp_empty : public integral_constant<bool, sizeof(__is_empty1<_Tp>) == sizeof(__is_empty2)> {};
-
-template <class _Tp> struct __libcpp_empty<_Tp, false> : public false_type {};
-
-template <class _Tp> struct _NANOSTL_TEMPLATE_VIS is_empty : public __libcpp_empty<_Tp> {};
+template <class _Tp> struct _NANOSTL_TEMPLATE_VIS is_empty
+    : public integral_constant<bool, __is_empty(_Tp)> {};
 
 
 // is_assignable
-- 
2.43.0


From 8f395cd645d0da94ee2eb7032579f35f83a12881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:52:44 +0000
Subject: [PATCH 25/40] fix: is_constructible of a reference from void did not
 compile

---
 include/nanotype_traits.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/nanotype_traits.h b/include/nanotype_traits.h
index 796caff..cfe8aac 100644
--- a/include/nanotype_traits.h
+++ b/include/nanotype_traits.h
@@ -767,8 +767,11 @@ struct __is_implicitly_default_constructible<_Tp, decltype(__test_implicit_defau
          static no_type test1(...);
 
          template <typename T>
-         static yes_type ref_test(T);
-         template <typename T>
+         static yes_type ref_arg(T);
+
+         template<typename T, typename Arg, typename = decltype(ref_arg<T>(declval<Arg>()))>
+         static yes_type ref_test(int);
+         template<typename, typename>
          static no_type ref_test(...);
       };
 
@@ -776,8 +779,8 @@ struct __is_implicitly_default_constructible<_Tp, decltype(__test_implicit_defau
 
    template <class T, class ...Args> struct is_constructible : public integral_constant<bool, sizeof(detail::is_constructible_imp::test<T, Args...>(0)) == sizeof(yes_type)>{};
    template <class T, class Arg> struct is_constructible<T, Arg> : public integral_constant<bool, is_destructible<T>::value && sizeof(detail::is_constructible_imp::test1<T, Arg>(0)) == sizeof(yes_type)>{};
-   template <class Ref, class Arg> struct is_constructible<Ref&, Arg> : public integral_constant<bool, sizeof(detail::is_constructible_imp::ref_test<Ref&>(declval<Arg>())) == sizeof(yes_type)>{};
-   template <class Ref, class Arg> struct is_constructible<Ref&&, Arg> : public integral_constant<bool, sizeof(detail::is_constructible_imp::ref_test<Ref&&>(declval<Arg>())) == sizeof(yes_type)>{};
+   template <class Ref, class Arg> struct is_constructible<Ref&, Arg> : public integral_constant<bool, sizeof(detail::is_constructible_imp::ref_test<Ref&, Arg>(0)) == sizeof(yes_type)>{};
+   template <class Ref, class Arg> struct is_constructible<Ref&&, Arg> : public integral_constant<bool, sizeof(detail::is_constructible_imp::ref_test<Ref&&, Arg>(0)) == sizeof(yes_type)>{};
 
    template <> struct is_constructible<void> : public false_type{};
    template <> struct is_constructible<void const> : public false_type{};
-- 
2.43.0


From 6974c8ada8566d8f733376d4f9d459f264a95947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:52:44 +0000
Subject: [PATCH 26/40] fix: is_enum<nullptr_t> is false

---
 include/nanotype_traits.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/nanotype_traits.h b/include/nanotype_traits.h
index cfe8aac..3d67a4c 100644
--- a/include/nanotype_traits.h
+++ b/include/nanotype_traits.h
@@ -1351,6 +1351,7 @@ template <class _Tp> struct _NANOSTL_TEMPLATE_VIS is_pointer
 
 template <class _Tp> struct _NANOSTL_TEMPLATE_VIS is_enum
     : public integral_constant<bool, !is_void<_Tp>::value             &&
+                                     !__is_nullptr_t<_Tp>::value      &&
                                      !is_integral<_Tp>::value         &&
                                      !is_floating_point<_Tp>::value   &&
                                      !is_array<_Tp>::value            &&
-- 
2.43.0


From 983d6900c852b8fcd0b052974f4c1f290d790b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:52:44 +0000
Subject: [PATCH 27/40] fix: is_default_constructible of arrays

---
 include/nanotype_traits.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/nanotype_traits.h b/include/nanotype_traits.h
index 3d67a4c..6258200 100644
--- a/include/nanotype_traits.h
+++ b/include/nanotype_traits.h
@@ -712,6 +712,11 @@ struct _NANOSTL_TEMPLATE_VIS is_default_constructible
     : public is_constructible<_Tp>
     {};
 
+template <class _Tp, size_t _Np>
+struct _NANOSTL_TEMPLATE_VIS is_default_constructible<_Tp[_Np]>
+    : public is_default_constructible<_Tp>
+    {};
+
 //#if _LIBCPP_STD_VER > 14
 //template <class _Tp>
 //inline constexpr bool is_default_constructible_v = is_default_constructible<_Tp>::value;
-- 
2.43.0


From e0aaeda011a300346902bbcd0de324765401f03e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:34:29 +0000
Subject: [PATCH 28/40] fix: atomic store and swap left 0 instead of the new
 value

---
 src/libs_thread.h | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/libs_thread.h b/src/libs_thread.h
index 7620d93..deb5a16 100644
--- a/src/libs_thread.h
+++ b/src/libs_thread.h
@@ -1037,8 +1037,7 @@ void thread_atomic_int_store( thread_atomic_int_t* atomic, int desired )
 
     #elif defined( __linux__ ) || defined( __APPLE__ ) || defined( __ANDROID__ )
 
-        __sync_lock_test_and_set( &atomic->i, desired );
-        __sync_lock_release( &atomic->i );
+        __atomic_store_n( &atomic->i, desired, __ATOMIC_SEQ_CST );
 
     #else
         #error Unknown platform.
@@ -1118,9 +1117,7 @@ int thread_atomic_int_swap( thread_atomic_int_t* atomic, int desired )
 
     #elif defined( __linux__ ) || defined( __APPLE__ ) || defined( __ANDROID__ )
 
-        int old = (int)__sync_lock_test_and_set( &atomic->i, desired );
-        __sync_lock_release( &atomic->i );
-        return old;
+        return (int)__atomic_exchange_n( &atomic->i, desired, __ATOMIC_SEQ_CST );
 
     #else
         #error Unknown platform.
@@ -1174,8 +1171,7 @@ void thread_atomic_ptr_store( thread_atomic_ptr_t* atomic, void* desired )
 
     #elif defined( __linux__ ) || defined( __APPLE__ ) || defined( __ANDROID__ )
 
-        __sync_lock_test_and_set( &atomic->ptr, desired );
-        __sync_lock_release( &atomic->ptr );
+        __atomic_store_n( &atomic->ptr, desired, __ATOMIC_SEQ_CST );
 
     #else
         #error Unknown platform.
@@ -1196,9 +1192,7 @@ void* thread_atomic_ptr_swap( thread_atomic_ptr_t* atomic, void* desired )
 
     #elif defined( __linux__ ) || defined( __APPLE__ ) || defined( __ANDROID__ )
 
-        void* old = __sync_lock_test_and_set( &atomic->ptr, desired );
-        __sync_lock_release( &atomic->ptr );
-        return old;
+        return __atomic_exchange_n( &atomic->ptr, desired, __ATOMIC_SEQ_CST );
 
     #else
         #error Unknown platform.
-- 
2.43.0


From 7be47ee890d1f9d975d648c1ccc5128d9e7771a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:34:29 +0000
Subject: [PATCH 29/40] fix: compare_and_swap failed once an atomic int had
 wrapped around

---
 src/libs_thread.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/libs_thread.h b/src/libs_thread.h
index deb5a16..d7f410f 100644
--- a/src/libs_thread.h
+++ b/src/libs_thread.h
@@ -538,7 +538,11 @@ union thread_signal_t
 union thread_atomic_int_t
     {
     void* align;
-    long i;
+    #if defined( _WIN32 )
+        long i;
+    #else
+        int i;
+    #endif
     };
 
 union thread_atomic_ptr_t
-- 
2.43.0


From d4c9833956f4523857a74fb89de5d6887914b9cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:34:29 +0000
Subject: [PATCH 30/40] fix: thread_signal_wait took seconds and microseconds
 from different clock readings

---
 src/libs_thread.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libs_thread.h b/src/libs_thread.h
index d7f410f..403e674 100644
--- a/src/libs_thread.h
+++ b/src/libs_thread.h
@@ -988,7 +988,7 @@ int thread_signal_wait( thread_signal_t* signal, int timeout_ms )
             {
             struct timeval tv;
             gettimeofday( &tv, NULL );
-            ts.tv_sec = time( NULL ) + timeout_ms / 1000;
+            ts.tv_sec = tv.tv_sec + timeout_ms / 1000;
             ts.tv_nsec = tv.tv_usec * 1000 + 1000 * 1000 * ( timeout_ms % 1000 );
             ts.tv_sec += ts.tv_nsec / ( 1000 * 1000 * 1000 );
             ts.tv_nsec %= ( 1000 * 1000 * 1000 );
-- 
2.43.0


From a72c1159d1fc87d67cc8e6117d881604b57140c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:34:29 +0000
Subject: [PATCH 31/40] fix: thread_queue_produce/consume ignored timeouts,
 stale signals and the documented result

---
 src/libs_thread.h | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/libs_thread.h b/src/libs_thread.h
index 403e674..372bcca 100644
--- a/src/libs_thread.h
+++ b/src/libs_thread.h
@@ -1393,16 +1393,17 @@ int thread_queue_produce( thread_queue_t* queue, void* value, int timeout_ms )
             queue->id_produce = thread_current_thread_id();
         assert( thread_current_thread_id() == queue->id_produce );
     #endif
-    if( thread_atomic_int_load( &queue->count ) == queue->size )
+    while( thread_atomic_int_load( &queue->count ) == queue->size )
         {
         if( timeout_ms == 0 ) return 0;
-        thread_signal_wait( &queue->space_open, timeout_ms == THREAD_QUEUE_WAIT_INFINITE ? THREAD_SIGNAL_WAIT_INFINITE : timeout_ms );
+        if( !thread_signal_wait( &queue->space_open, timeout_ms == THREAD_QUEUE_WAIT_INFINITE ? THREAD_SIGNAL_WAIT_INFINITE : timeout_ms ) )
+            return 0;
         }
     int tail = thread_atomic_int_inc( &queue->tail );
     queue->values[ tail % queue->size ] = value;
     if( thread_atomic_int_inc( &queue->count ) == 0 )
         thread_signal_raise( &queue->data_ready );
-    return 0;
+    return 1;
     }
 
 
@@ -1413,10 +1414,11 @@ void* thread_queue_consume( thread_queue_t* queue, int timeout_ms )
             queue->id_consume = thread_current_thread_id();
         assert( thread_current_thread_id() == queue->id_consume );
     #endif
-    if( thread_atomic_int_load( &queue->count ) == 0 )
+    while( thread_atomic_int_load( &queue->count ) == 0 )
         {
         if( timeout_ms == 0 ) return NULL;
-        thread_signal_wait( &queue->data_ready, THREAD_SIGNAL_WAIT_INFINITE );
+        if( !thread_signal_wait( &queue->data_ready, timeout_ms == THREAD_QUEUE_WAIT_INFINITE ? THREAD_SIGNAL_WAIT_INFINITE : timeout_ms ) )
+            return NULL;
         }
     int head = thread_atomic_int_inc( &queue->head );
     void* retval = queue->values[ head % queue->size ];
-- 
2.43.0


From 6fd7f6ad4d9d0647deec740ade1641614dec2a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:34:29 +0000
Subject: [PATCH 32/40] fix: thread_queue indexed outside its slots after 2^31
 operations

---
 src/libs_thread.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/libs_thread.h b/src/libs_thread.h
index 372bcca..b6cad50 100644
--- a/src/libs_thread.h
+++ b/src/libs_thread.h
@@ -1399,8 +1399,9 @@ int thread_queue_produce( thread_queue_t* queue, void* value, int timeout_ms )
         if( !thread_signal_wait( &queue->space_open, timeout_ms == THREAD_QUEUE_WAIT_INFINITE ? THREAD_SIGNAL_WAIT_INFINITE : timeout_ms ) )
             return 0;
         }
-    int tail = thread_atomic_int_inc( &queue->tail );
-    queue->values[ tail % queue->size ] = value;
+    int tail = thread_atomic_int_load( &queue->tail ) % queue->size;
+    thread_atomic_int_store( &queue->tail, tail + 1 );
+    queue->values[ tail ] = value;
     if( thread_atomic_int_inc( &queue->count ) == 0 )
         thread_signal_raise( &queue->data_ready );
     return 1;
@@ -1420,8 +1421,9 @@ void* thread_queue_consume( thread_queue_t* queue, int timeout_ms )
         if( !thread_signal_wait( &queue->data_ready, timeout_ms == THREAD_QUEUE_WAIT_INFINITE ? THREAD_SIGNAL_WAIT_INFINITE : timeout_ms ) )
             return NULL;
         }
-    int head = thread_atomic_int_inc( &queue->head );
-    void* retval = queue->values[ head % queue->size ];
+    int head = thread_atomic_int_load( &queue->head ) % queue->size;
+    thread_atomic_int_store( &queue->head, head + 1 );
+    void* retval = queue->values[ head ];
     if( thread_atomic_int_dec( &queue->count ) == queue->size )
         thread_signal_raise( &queue->space_open );
     return retval;
-- 
2.43.0


From 769fcf57f1d42a7eac8d11b8bc3ae91214fb872e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:34:29 +0000
Subject: [PATCH 33/40] fix: thread_tls_create reported the first key of a
 process as a failure

---
 src/libs_thread.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/libs_thread.h b/src/libs_thread.h
index b6cad50..3b9c8e4 100644
--- a/src/libs_thread.h
+++ b/src/libs_thread.h
@@ -1305,7 +1305,7 @@ thread_tls_t thread_tls_create( void )
 
         pthread_key_t tls;
         if( pthread_key_create( &tls, NULL ) == 0 )
-            return (thread_tls_t) (uintptr_t) tls;
+            return (thread_tls_t) ( (uintptr_t) tls + 1 ); // 0 is a valid key, but means failure
         else
             return NULL;
 
@@ -1323,7 +1323,7 @@ void thread_tls_destroy( thread_tls_t tls )
 
     #elif defined( __linux__ ) || defined( __APPLE__ ) || defined( __ANDROID__ )
 
-        pthread_key_delete( (pthread_key_t) (uintptr_t) tls );
+        pthread_key_delete( (pthread_key_t) ( (uintptr_t) tls - 1 ) );
 
     #else
         #error Unknown platform.
@@ -1339,7 +1339,7 @@ void thread_tls_set( thread_tls_t tls, void* value )
 
     #elif defined( __linux__ ) || defined( __APPLE__ ) || defined( __ANDROID__ )
 
-        pthread_setspecific( (pthread_key_t) (uintptr_t) tls, value );
+        pthread_setspecific( (pthread_key_t) ( (uintptr_t) tls - 1 ), value );
 
     #else
         #error Unknown platform.
@@ -1355,7 +1355,7 @@ void* thread_tls_get( thread_tls_t tls )
 
     #elif defined( __linux__ ) || defined( __APPLE__ ) || defined( __ANDROID__ )
 
-        return pthread_getspecific( (pthread_key_t) (uintptr_t) tls );
+        return pthread_getspecific( (pthread_key_t) ( (uintptr_t) tls - 1 ) );
 
     #else
         #error Unknown platform.
-- 
2.43.0


From 301680dae7af1ac42a53d5ba6008a0e36ce6b449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:08:38 +0000
Subject: [PATCH 34/40] fix: fast_float::from_chars did not compile (std::errc
 assigned to nanostl::errc)

---
 include/fast_float/parse_number.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/fast_float/parse_number.h b/include/fast_float/parse_number.h
index 62ae3b0..6ae5494 100644
--- a/include/fast_float/parse_number.h
+++ b/include/fast_float/parse_number.h
@@ -23,7 +23,7 @@ template <typename T>
 from_chars_result parse_infnan(const char *first, const char *last, T &value)  noexcept  {
   from_chars_result answer;
   answer.ptr = first;
-  answer.ec = std::errc(); // be optimistic
+  answer.ec = nanostl::errc(); // be optimistic
   bool minusSign = false;
   if (*first == '-') { // assume first < last, so dereference without checks; C++17 20.19.3.(7.1) explicitly forbids '+' here
       minusSign = true;
@@ -56,7 +56,7 @@ from_chars_result parse_infnan(const char *first, const char *last, T &value)  n
       return answer;
     }
   }
-  answer.ec = std::errc::invalid_argument;
+  answer.ec = nanostl::errc::invalid_argument;
   return answer;
 }
 
@@ -77,7 +77,7 @@ from_chars_result from_chars_advanced(const char *first, const char *last,
 
   from_chars_result answer;
   if (first == last) {
-    answer.ec = std::errc::invalid_argument;
+    answer.ec = nanostl::errc::invalid_argument;
     answer.ptr = first;
     return answer;
   }
@@ -85,7 +85,7 @@ from_chars_result from_chars_advanced(const char *first, const char *last,
   if (!pns.valid) {
     return detail::parse_infnan(first, last, value);
   }
-  answer.ec = std::errc(); // be optimistic
+  answer.ec = nanostl::errc(); // be optimistic
   answer.ptr = pns.lastmatch;
   // Next is Clinger's fast path.
   if (binary_format<T>::min_exponent_fast_path() <= pns.exponent && pns.exponent <= binary_format<T>::max_exponent_fast_path() && pns.mantissa <=binary_format<T>::max_mantissa_fast_path() && !pns.too_many_digits) {
-- 
2.43.0


From aa312feb0233ccaa61e34550610b2a957ca6e3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:52:46 +0000
Subject: [PATCH 35/40] fix: inserting a string into an output stream recursed
 into itself forever

---
 include/nanoiostream.h | 5 +++++
 include/nanostring.h   | 7 +------
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/nanoiostream.h b/include/nanoiostream.h
index 7e9afb9..223ffc0 100644
--- a/include/nanoiostream.h
+++ b/include/nanoiostream.h
@@ -191,6 +191,11 @@ basic_ostream<char, nanostl::char_traits<char>>::operator<<(const void *__n)
   return *this;
 }
 
+inline ostream &operator<<(ostream &os, const string &s)
+{
+  return os << s.c_str();
+}
+
 
 // --------------------------------------
 
diff --git a/include/nanostring.h b/include/nanostring.h
index 255f98d..6bdf4d7 100644
--- a/include/nanostring.h
+++ b/include/nanostring.h
@@ -236,12 +236,7 @@ basic_string<charT> &basic_string<charT>::operator+=(
 typedef basic_string<char> string;
 
 // stream
-ostream &operator<<(ostream &os, const string &s)
-{
-  os << s;
-
-  return os;
-}
+ostream &operator<<(ostream &os, const string &s);
 
 NANOSTL_HOST_AND_DEVICE_QUAL
 string to_string(int value);
-- 
2.43.0


From e7ab822c8d065b93a0169c81fc3a1bcfe4ec4a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:42:22 +0000
Subject: [PATCH 36/40] fix: comparing two expected<void, E> did not compile
 (second error type never deduced)

---
 include/nonstd/expected.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nonstd/expected.hpp b/include/nonstd/expected.hpp
index a55df8c..cfc9658 100644
--- a/include/nonstd/expected.hpp
+++ b/include/nonstd/expected.hpp
@@ -2174,7 +2174,7 @@ constexpr bool operator!=( expected<T1,E1> const & x, expected<T2,E2> const & y
 }
 
 template< typename E1, typename E2 >
-constexpr bool operator==( expected<void,E1> const & x, expected<void,E1> const & y )
+constexpr bool operator==( expected<void,E1> const & x, expected<void,E2> const & y )
 {
     return bool(x) != bool(y) ? false : bool(x) == false ? x.error() == y.error() : true;
 }
-- 
2.43.0


From 8c137aecf974ec8453f7a204551c5ee4cf2f566e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:44:12 +0000
Subject: [PATCH 37/40] fix: swapping a successful with a failed expected<void,
 E> left the moved-from error undestroyed

---
 include/nonstd/expected.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/nonstd/expected.hpp b/include/nonstd/expected.hpp
index cfc9658..5c54e12 100644
--- a/include/nonstd/expected.hpp
+++ b/include/nonstd/expected.hpp
@@ -2063,6 +2063,7 @@ public:
 
         if      ( ! bool(*this) && ! bool(other) ) { swap( contained.error(), other.contained.error() ); }
         else if (   bool(*this) && ! bool(other) ) { contained.construct_error( nanostl::move( other.error() ) );
+                                                     other.contained.destruct_error();
                                                      bool has_value = contained.has_value();
                                                      bool other_has_value = other.has_value();
                                                      other.contained.set_has_value(has_value);
-- 
2.43.0


From 77b2c95fcbbca1c0d19bd41cd4412b96fd068fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:02:15 +0000
Subject: [PATCH 38/40] fix: comparing strings stopped at the first embedded
 NUL character

---
 include/nanostring.h | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/include/nanostring.h b/include/nanostring.h
index 6bdf4d7..b70f6dc 100644
--- a/include/nanostring.h
+++ b/include/nanostring.h
@@ -133,11 +133,15 @@ class basic_string {
 
   NANOSTL_HOST_AND_DEVICE_QUAL
   int compare(const basic_string &str) const {
-    return compare_(&data_[0], &str[0]);
+    return compare_(&data_[0], size(), &str[0], str.size());
   }
 
   NANOSTL_HOST_AND_DEVICE_QUAL
-  int compare(const charT *s) const { return compare_(&data_[0], s); }
+  int compare(const charT *s) const {
+    size_type n = 0;
+    while (s[n]) n++;
+    return compare_(&data_[0], size(), s, n);
+  }
 
   NANOSTL_HOST_AND_DEVICE_QUAL
   iterator erase(iterator pos) { return data_.erase(pos); }
@@ -181,10 +185,18 @@ class basic_string {
  private:
   nanostl::vector<charT> data_;
 
-  inline int compare_(const charT *p, const charT *q) const {
-    while (*p && (*p == *q)) {
+  // A string may contain '\0', so compare up to the lengths.
+  inline int compare_(const charT *p, size_type n, const charT *q,
+                      size_type m) const {
+    while (n && m && (*p == *q)) {
       p++;
       q++;
+      n--;
+      m--;
+    }
+
+    if (!n || !m) {
+      return n ? 1 : (m ? -1 : 0);
     }
 
     return *reinterpret_cast<const unsigned char *>(p) -
-- 
2.43.0


From badd01806f5a1dc9f20de9d92d130ca0b4381102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:40:08 +0000
Subject: [PATCH 39/40] fix: text without a digit (or with an exponent without
 one) was read as a number

---
 include/__nanostrutil.h | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/include/__nanostrutil.h b/include/__nanostrutil.h
index 3ccc29f..3272c85 100644
--- a/include/__nanostrutil.h
+++ b/include/__nanostrutil.h
@@ -1369,6 +1369,7 @@ static enum RyuStatus s2f_n(const char * buffer, const int len, float * result)
   int32_t e10 = 0;
   bool signedM = false;
   bool signedE = false;
+  bool digits = false;
   int i = 0;
   if (buffer[i] == '-') {
     signedM = true;
@@ -1386,6 +1387,7 @@ static enum RyuStatus s2f_n(const char * buffer, const int len, float * result)
     if ((c < '0') || (c > '9')) {
       break;
     }
+    digits = true;
     if (m10digits >= 9) {
       return RYU_INPUT_TOO_LONG;
     }
@@ -1394,6 +1396,9 @@ static enum RyuStatus s2f_n(const char * buffer, const int len, float * result)
       m10digits++;
     }
   }
+  if (!digits) {
+    return RYU_MALFORMED_INPUT;
+  }
   if (i < len && ((buffer[i] == 'e') || (buffer[i] == 'E'))) {
     eIndex = i;
     i++;
@@ -1401,6 +1406,9 @@ static enum RyuStatus s2f_n(const char * buffer, const int len, float * result)
       signedE = buffer[i] == '-';
       i++;
     }
+    if (i == len) {
+      return RYU_MALFORMED_INPUT;
+    }
     for (; i < len; i++) {
       char c = buffer[i];
       if ((c < '0') || (c > '9')) {
@@ -1592,6 +1600,7 @@ static enum RyuStatus s2d_n(const char * buffer, const int len, double * result)
   int32_t e10 = 0;
   bool signedM = false;
   bool signedE = false;
+  bool digits = false;
   int i = 0;
   if (buffer[i] == '-') {
     signedM = true;
@@ -1609,6 +1618,7 @@ static enum RyuStatus s2d_n(const char * buffer, const int len, double * result)
     if ((c < '0') || (c > '9')) {
       break;
     }
+    digits = true;
     if (m10digits >= 17) {
       return RYU_INPUT_TOO_LONG;
     }
@@ -1617,6 +1627,9 @@ static enum RyuStatus s2d_n(const char * buffer, const int len, double * result)
       m10digits++;
     }
   }
+  if (!digits) {
+    return RYU_MALFORMED_INPUT;
+  }
   if (i < len && ((buffer[i] == 'e') || (buffer[i] == 'E'))) {
     eIndex = i;
     i++;
@@ -1624,6 +1637,9 @@ static enum RyuStatus s2d_n(const char * buffer, const int len, double * result)
       signedE = buffer[i] == '-';
       i++;
     }
+    if (i == len) {
+      return RYU_MALFORMED_INPUT;
+    }
     for (; i < len; i++) {
       char c = buffer[i];
       if ((c < '0') || (c > '9')) {
-- 
2.43.0


From fc764eb674fef98b69b00f55bdde4ba748d58a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:39 +0000
Subject: [PATCH 40/40] fix: hashing a variant did not compile

---
 include/nonstd/variant.hpp | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/include/nonstd/variant.hpp b/include/nonstd/variant.hpp
index 1920bc7..683087d 100644
--- a/include/nonstd/variant.hpp
+++ b/include/nonstd/variant.hpp
@@ -2370,22 +2370,22 @@ struct hash< nonstd::variant<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, T
 
         switch( v.index() )
         {
-            case 0: return nvd::hash( 0 ) ^ nvd::hash( this->get<0>( v ) );
-            case 1: return nvd::hash( 1 ) ^ nvd::hash( this->get<1>( v ) );
-            case 2: return nvd::hash( 2 ) ^ nvd::hash( this->get<2>( v ) );
-            case 3: return nvd::hash( 3 ) ^ nvd::hash( this->get<3>( v ) );
-            case 4: return nvd::hash( 4 ) ^ nvd::hash( this->get<4>( v ) );
-            case 5: return nvd::hash( 5 ) ^ nvd::hash( this->get<5>( v ) );
-            case 6: return nvd::hash( 6 ) ^ nvd::hash( this->get<6>( v ) );
-            case 7: return nvd::hash( 7 ) ^ nvd::hash( this->get<7>( v ) );
-            case 8: return nvd::hash( 8 ) ^ nvd::hash( this->get<8>( v ) );
-            case 9: return nvd::hash( 9 ) ^ nvd::hash( this->get<9>( v ) );
-            case 10: return nvd::hash( 10 ) ^ nvd::hash( this->get<10>( v ) );
-            case 11: return nvd::hash( 11 ) ^ nvd::hash( this->get<11>( v ) );
-            case 12: return nvd::hash( 12 ) ^ nvd::hash( this->get<12>( v ) );
-            case 13: return nvd::hash( 13 ) ^ nvd::hash( this->get<13>( v ) );
-            case 14: return nvd::hash( 14 ) ^ nvd::hash( this->get<14>( v ) );
-            case 15: return nvd::hash( 15 ) ^ nvd::hash( this->get<15>( v ) );
+            case 0: return nvd::hash( 0 ) ^ nvd::hash( v.template get<0>() );
+            case 1: return nvd::hash( 1 ) ^ nvd::hash( v.template get<1>() );
+            case 2: return nvd::hash( 2 ) ^ nvd::hash( v.template get<2>() );
+            case 3: return nvd::hash( 3 ) ^ nvd::hash( v.template get<3>() );
+            case 4: return nvd::hash( 4 ) ^ nvd::hash( v.template get<4>() );
+            case 5: return nvd::hash( 5 ) ^ nvd::hash( v.template get<5>() );
+            case 6: return nvd::hash( 6 ) ^ nvd::hash( v.template get<6>() );
+            case 7: return nvd::hash( 7 ) ^ nvd::hash( v.template get<7>() );
+            case 8: return nvd::hash( 8 ) ^ nvd::hash( v.template get<8>() );
+            case 9: return nvd::hash( 9 ) ^ nvd::hash( v.template get<9>() );
+            case 10: return nvd::hash( 10 ) ^ nvd::hash( v.template get<10>() );
+            case 11: return nvd::hash( 11 ) ^ nvd::hash( v.template get<11>() );
+            case 12: return nvd::hash( 12 ) ^ nvd::hash( v.template get<12>() );
+            case 13: return nvd::hash( 13 ) ^ nvd::hash( v.template get<13>() );
+            case 14: return nvd::hash( 14 ) ^ nvd::hash( v.template get<14>() );
+            case 15: return nvd::hash( 15 ) ^ nvd::hash( v.template get<15>() );
 
             default: return 0;
         }
-- 
2.43.0

