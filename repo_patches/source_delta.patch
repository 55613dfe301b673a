From 2e0dd1a17a8128bb99215eb6ffa9ec1ff0b7428c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:45 +0000
Subject: [PATCH 01/90] fix: mutex: read holder and recursion mode without a
 data race

lock() and unlock() compared holder and cnt without owning the pthread
mutex while the owner wrote them.
---
 src/concurrent/mutex.cpp    | 7 ++++---
 src/concurrent/mutex_impl.h | 6 +++++-
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/concurrent/mutex.cpp b/src/concurrent/mutex.cpp
index 2fb453e..66c6eb3 100644
--- a/src/concurrent/mutex.cpp
+++ b/src/concurrent/mutex.cpp
@@ -55,7 +55,8 @@ bool mutex_base::unlock()
 }
 
 mutex_base::impl::impl(bool recursive)
-  : holder(-1)
+  : recursive(recursive)
+  , holder(-1)
   , cnt(recursive?0:-1)
 {
   // always succeed
@@ -73,7 +74,7 @@ bool mutex_base::impl::lock()
   thread::tid_t self=thread::id();
 
   // non-recursive
-  if (cnt<0) {
+  if (!recursive) {
     int r=pthread_mutex_lock(&mid);
     if (r==0)
       holder=self;
@@ -98,7 +99,7 @@ bool mutex_base::impl::lock()
 
 bool mutex_base::impl::unlock()
 {
-  if (cnt<0) {
+  if (!recursive) {
     // non-recursive
     holder=-1;
     return pthread_mutex_unlock(&mid)==0;
diff --git a/src/concurrent/mutex_impl.h b/src/concurrent/mutex_impl.h
index 28e563e..ee8b96a 100644
--- a/src/concurrent/mutex_impl.h
+++ b/src/concurrent/mutex_impl.h
@@ -34,6 +34,8 @@
 
 #include <pthread.h>
 
+#include <atomic>
+
 #include "thread.h"
 
 namespace pfi{
@@ -52,7 +54,9 @@ public:
 
 private:
   pthread_mutex_t mid;
-  thread::tid_t holder;
+  const bool recursive;
+  // compared by threads that do not own mid
+  std::atomic<thread::tid_t> holder;
   int cnt;
 };
 
-- 
2.43.0


From 7aefc5e26306d01357390efffb08cce9e4e4a980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:26 +0000
Subject: [PATCH 02/90] fix: rw_mutex: return success, not the error code, from
 an immediate read lock

---
 src/concurrent/rwmutex.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/concurrent/rwmutex.cpp b/src/concurrent/rwmutex.cpp
index a5e610e..3815b46 100644
--- a/src/concurrent/rwmutex.cpp
+++ b/src/concurrent/rwmutex.cpp
@@ -96,7 +96,7 @@ bool rw_mutex::impl::read_lock(double sec)
   if (!valid) return false;
 
   if (sec<1e-9)
-    return pthread_rwlock_tryrdlock(&lk);
+    return pthread_rwlock_tryrdlock(&lk)==0;
 
   timespec end=to_timespec(get_clock_time()+sec);
   return pthread_rwlock_timedrdlock(&lk, &end)==0;
-- 
2.43.0


From 78e508b357b60fce4fae55a9b0e8b1187a279ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:40 +0000
Subject: [PATCH 03/90] fix: qsem: wait(q) takes q units, not one

---
 src/concurrent/qsem.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/concurrent/qsem.h b/src/concurrent/qsem.h
index 0191c90..8a4f2b8 100644
--- a/src/concurrent/qsem.h
+++ b/src/concurrent/qsem.h
@@ -56,7 +56,7 @@ public:
       if (lock) {
         while (quantity < q)
           cond.wait(m);
-        quantity--;
+        quantity -= q;
         return true;
       }
     }
-- 
2.43.0


From 26d7a3f1611133ed9a4720f8435b5e0d25edc1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:16 +0000
Subject: [PATCH 04/90] fix: md5: keep the sine table local, it was a static
 rewritten by every call

---
 src/data/digest/md5.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data/digest/md5.cpp b/src/data/digest/md5.cpp
index 4b707cb..5aca4a7 100644
--- a/src/data/digest/md5.cpp
+++ b/src/data/digest/md5.cpp
@@ -71,7 +71,7 @@ void md5sum::calc(itr_buf_base &buf)
   c=0x98badcfe;
   d=0x10325476;
 
-  static uint32_t tbl[65];
+  uint32_t tbl[65];
 
   for (int i=0;i<=64;i++){
     double r=4294967296.0*abs(sin((double)i));
-- 
2.43.0


From 567c9bb2ff15eee36739ecc2da74e401e0bb663f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:16 +0000
Subject: [PATCH 05/90] fix: code: decoder::byte skips the padding
 encoder::byte leaves

---
 src/data/code/code.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/data/code/code.cpp b/src/data/code/code.cpp
index 900de9e..bea81b1 100644
--- a/src/data/code/code.cpp
+++ b/src/data/code/code.cpp
@@ -181,6 +181,11 @@ namespace code {
   }
 
   unsigned char decoder::byte() {
+    if (bit) {
+      ++pos;
+      bit=0;
+    }
+
     return bytes[pos++];
   }
 
-- 
2.43.0


From 0b763ac8208b30febeb96eb171411a3282082d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:16 +0000
Subject: [PATCH 06/90] fix: code: flushing an empty encoder does not index an
 empty vector

---
 src/data/code/code.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data/code/code.cpp b/src/data/code/code.cpp
index bea81b1..68c76f4 100644
--- a/src/data/code/code.cpp
+++ b/src/data/code/code.cpp
@@ -65,7 +65,7 @@ namespace code {
 
   int encoder::flush(ostream& os) {
     int res=bytes.size();
-    os.write((char*)&bytes[0],bytes.size());
+    if (!bytes.empty()) os.write((char*)&bytes[0],bytes.size());
     bytes.clear();
     bit=0;
     return res;
-- 
2.43.0


From c372a733e283e717f9f1af7a11bc3d6b8ca482d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:16 +0000
Subject: [PATCH 07/90] fix: base64: reject text after padding instead of
 dropping it

---
 src/data/encoding/base64.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/data/encoding/base64.cpp b/src/data/encoding/base64.cpp
index 199a6be..2efd126 100644
--- a/src/data/encoding/base64.cpp
+++ b/src/data/encoding/base64.cpp
@@ -117,12 +117,16 @@ string base64_decode(const string &s)
 
     int v3 = toint(*srcptr++);
     if (v3 == -1) {
+      if (i + 1 != blocks || *srcptr != '=')
+        throw invalid_argument(string("invalid padding: ")+s.substr(i * 4,4));
       break;
     }
     result.push_back(((v2 << 4) | (v3 >> 2)) & 0xff);
 
     int v4 = toint(*srcptr++);
     if (v4 == -1) {
+      if (i + 1 != blocks)
+        throw invalid_argument(string("invalid padding: ")+s.substr(i * 4,4));
       break;
     }
     result.push_back(((v3 << 6) | v4) & 0xff);
-- 
2.43.0


From 11a1ada0202d1950cdb5345227f154ea5c630da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:26 +0000
Subject: [PATCH 08/90] fix: strip: do not hand wide characters to isspace

---
 src/data/string/utility.h | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/data/string/utility.h b/src/data/string/utility.h
index b4b6982..6b1a21c 100644
--- a/src/data/string/utility.h
+++ b/src/data/string/utility.h
@@ -41,6 +41,14 @@ namespace pfi{
 namespace data{
 namespace string{
 
+// isspace() is defined for unsigned char values only; code units outside
+// that range are not white spaces.
+template <class Char>
+inline bool is_space(Char c)
+{
+  return c >= 0 && c <= 0x7f && isspace(static_cast<int>(c)) != 0;
+}
+
 template <class String, class Char, class Iterator>
 void split(const String &str, Char sep, Iterator p)
 {
@@ -106,11 +114,11 @@ void strip(const String &str, String &res)
   typename String::const_iterator beg = str.begin();
   typename String::const_iterator end = str.end();
 
-  while (beg != end && isspace(*beg)) ++beg;
+  while (beg != end && is_space(*beg)) ++beg;
 
   while (beg != end) {
     --end;
-    if (!isspace(*end)) {
+    if (!is_space(*end)) {
       end++;
       break;
     }
@@ -133,7 +141,7 @@ void lstrip(const String &str, String &res)
   typename String::const_iterator beg = str.begin();
   typename String::const_iterator end = str.end();
 
-  while (beg != end && isspace(*beg)) ++beg;
+  while (beg != end && is_space(*beg)) ++beg;
 
   String(beg, end).swap(res);
 }
@@ -154,7 +162,7 @@ void rstrip(const String &str, String &res)
 
   while (beg != end) {
     --end;
-    if (!isspace(*end)) {
+    if (!is_space(*end)) {
       end++;
       break;
     }
-- 
2.43.0


From 7a4cf733c05be4545ac4bee829243919458beb9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:26 +0000
Subject: [PATCH 09/90] fix: kmp: an empty query matches at the offset instead
 of indexing an empty table

---
 src/data/string/kmp.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/data/string/kmp.h b/src/data/string/kmp.h
index 81fa474..27b4588 100644
--- a/src/data/string/kmp.h
+++ b/src/data/string/kmp.h
@@ -46,7 +46,7 @@ public:
  explicit kmp(const T& q) {
    query=q;
    next=std::vector<int>(query.size());
-   int t=next[0]=0;
+   int t=0;
    for (int i=1;i<(int)query.size();++i) {
      while(t>0&&query[i]!=query[t]) t=next[t-1];
      if (query[i]==query[t]) next[i]=++t;
@@ -56,6 +56,7 @@ public:
 
  size_t find(const T& text, int offset = 0) const
  {
+   if (query.size()==0) return offset<=(int)text.size() ? offset : std::string::npos;
    int t=0;
    for (int i=offset;i<(int)text.size();++i) {
      while(t>0&&text[i]!=query[t]) t=next[t-1];
-- 
2.43.0


From e934dd9d21337ce4c23023d176a5b4f313a4aaa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:26 +0000
Subject: [PATCH 10/90] fix: longest_increasing_subsequence: compare elements
 in their own type, not as int

---
 src/data/string/algorithm.h | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/data/string/algorithm.h b/src/data/string/algorithm.h
index bb4ca1a..9b6fab7 100644
--- a/src/data/string/algorithm.h
+++ b/src/data/string/algorithm.h
@@ -66,14 +66,16 @@ namespace string {
 
   template<typename A>
   int longest_increasing_subsequence(const A& a) {
-    if (a.size()==0) return 0;
-    
-    std::vector<int> tbl(a.size(),INT_MAX),id(a.size());
+    // tbl[k]: the smallest last element of increasing subsequences of length k+1
+    typedef typename A::value_type value_type;
+    std::vector<value_type> tbl;
     for (size_t i=0;i<a.size();++i) {
-      id[i]=std::lower_bound(tbl.begin(),tbl.end(),a[i])-tbl.begin();
-      tbl[id[i]]=a[i];
+      typename std::vector<value_type>::iterator p=
+        std::lower_bound(tbl.begin(),tbl.end(),a[i]);
+      if (p==tbl.end()) tbl.push_back(a[i]);
+      else *p=a[i];
     }
-    return *max_element(id.begin(),id.end())+1;
+    return tbl.size();
   }
 
 } // string
-- 
2.43.0


From c0d0d63a1b142b7e3aa9baef6b3ea97a52f3701a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:02 +0000
Subject: [PATCH 11/90] fix: code: shift unsigned ones, rice with k=31
 overflowed int

---
 src/data/code/code.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/data/code/code.cpp b/src/data/code/code.cpp
index 68c76f4..507ef2b 100644
--- a/src/data/code/code.cpp
+++ b/src/data/code/code.cpp
@@ -107,13 +107,13 @@ namespace code {
   {
     unsigned int pmsf=get_len(v)-1;       // the position of the most significant bit
     gamma(pmsf+1);
-    word_with_length(v-(1<<pmsf),pmsf);
+    word_with_length(v-(1U<<pmsf),pmsf);
   }
 
   void encoder::rice(unsigned int v, unsigned int k)
   {
     delta((v>>k)+1);
-    word_with_length(v&((1<<k)-1),k);
+    word_with_length(v&((1U<<k)-1),k);
   }
 
   void encoder::prefix_code(unsigned int v)
@@ -213,7 +213,7 @@ namespace code {
   unsigned int decoder::delta()
   {
     int len=gamma()-1;
-    return (1<<len)+word_with_length(len);
+    return (1U<<len)+word_with_length(len);
   }
 
   unsigned int decoder::rice(unsigned int k)
-- 
2.43.0


From 5315f578463f2d187165382d17eba8c3c96d96c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:17 +0000
Subject: [PATCH 12/90] fix: serialization: stop reading a container or stream
 when the archive has run out

---
 src/data/serialization/base.h          | 13 +++++++++++++
 src/data/serialization/deque.h         |  2 ++
 src/data/serialization/iostream.h      |  4 ++++
 src/data/serialization/list.h          |  2 ++
 src/data/serialization/map.h           |  2 ++
 src/data/serialization/set.h           |  2 ++
 src/data/serialization/string.h        | 17 ++++++++++++++---
 src/data/serialization/unordered_map.h |  2 ++
 src/data/serialization/unordered_set.h |  2 ++
 src/data/serialization/vector.h        |  4 +++-
 10 files changed, 46 insertions(+), 4 deletions(-)

diff --git a/src/data/serialization/base.h b/src/data/serialization/base.h
index 64aac74..af9148c 100644
--- a/src/data/serialization/base.h
+++ b/src/data/serialization/base.h
@@ -99,6 +99,19 @@ private:
   std::istream& is;
 };
 
+// Whether reading from an archive may go on. Containers stop at the first
+// failure instead of trusting the element count.
+template <class Archive>
+inline bool is_readable(const Archive&)
+{
+  return true;
+}
+
+inline bool is_readable(const binary_iarchive& ar)
+{
+  return ar;
+}
+
 template <class T>
 binary_iarchive& operator>>(binary_iarchive& ar, T& v)
 {
diff --git a/src/data/serialization/deque.h b/src/data/serialization/deque.h
index 7404fdb..5e1ea6b 100644
--- a/src/data/serialization/deque.h
+++ b/src/data/serialization/deque.h
@@ -48,6 +48,7 @@ void serialize(Archive &ar, std::deque<T, Allocator> &v)
   ar & size;
 
   if (ar.is_read) {
+    if (!is_readable(ar)) return;
     v.resize(std::min<size_t>(size, v.size()));
     for (size_t i = 0; i < v.size(); ++i) {
       ar & v[i];
@@ -55,6 +56,7 @@ void serialize(Archive &ar, std::deque<T, Allocator> &v)
     for (size_t i = v.size(); i < size; ++i) {
       T t = T();
       ar & t;
+      if (!is_readable(ar)) break;
       v.push_back(t);
     }
   } else {
diff --git a/src/data/serialization/iostream.h b/src/data/serialization/iostream.h
index 093ec7c..b63c251 100644
--- a/src/data/serialization/iostream.h
+++ b/src/data/serialization/iostream.h
@@ -103,8 +103,12 @@ void serialize(Archive &ar, std::iostream &ios)
     char c[2]={};
     for (;;){
       ar & c[0];
+      if (!is_readable(ar))
+        break;
       if (static_cast<unsigned char>(c[0])==0xff){
         ar & c[1];
+        if (!is_readable(ar))
+          break;
         if (c[1]==0x00)
           break;
         *p=0xff;
diff --git a/src/data/serialization/list.h b/src/data/serialization/list.h
index 7f546e2..82c595f 100644
--- a/src/data/serialization/list.h
+++ b/src/data/serialization/list.h
@@ -49,6 +49,7 @@ void serialize(Archive &ar, std::list<T, Allocator> &v)
 
   typedef typename std::list<T, Allocator>::iterator iter_t;
   if (ar.is_read) {
+    if (!is_readable(ar)) return;
     v.resize(std::min<size_t>(size, v.size()));
     for (iter_t it = v.begin(); it != v.end(); ++it) {
       ar & *it;
@@ -56,6 +57,7 @@ void serialize(Archive &ar, std::list<T, Allocator> &v)
     for (size_t i = v.size(); i < size; ++i) {
       T t = T();
       ar & t;
+      if (!is_readable(ar)) break;
       v.push_back(t);
     }
   } else {
diff --git a/src/data/serialization/map.h b/src/data/serialization/map.h
index 71ae62a..f147932 100644
--- a/src/data/serialization/map.h
+++ b/src/data/serialization/map.h
@@ -49,10 +49,12 @@ void serialize(Archive &ar, std::map<K, V, Compare, Allocator> &m)
   ar & size;
 
   if (ar.is_read){
+    if (!is_readable(ar)) return;
     m.clear();
     while(size--){
       std::pair<K,V> v;
       ar & v;
+      if (!is_readable(ar)) break;
       m.insert(v);
     }
   }
diff --git a/src/data/serialization/set.h b/src/data/serialization/set.h
index 6694c6c..f1b2315 100644
--- a/src/data/serialization/set.h
+++ b/src/data/serialization/set.h
@@ -47,10 +47,12 @@ void serialize(Archive &ar, std::set<T, Compare, Allocator> &s)
   ar & size;
 
   if (ar.is_read){
+    if (!is_readable(ar)) return;
     s.clear();
     while(size--){
       T v;
       ar & v;
+      if (!is_readable(ar)) break;
       s.insert(v);
     }
   }
diff --git a/src/data/serialization/string.h b/src/data/serialization/string.h
index 492feba..ccc1d5e 100644
--- a/src/data/serialization/string.h
+++ b/src/data/serialization/string.h
@@ -48,9 +48,20 @@ void serialize(Archive &ar, std::basic_string<CharType, Traits, Allocator> &s)
   uint32_t length=static_cast<uint32_t>(s.length());
   ar & length;
 
-  s.resize(length);
-  for (uint32_t i=0;i<length;i++)
-    ar & s[i];
+  if (ar.is_read){
+    if (!is_readable(ar)) return;
+    s.clear();
+    for (uint32_t i=0;i<length;i++){
+      CharType c=CharType();
+      ar & c;
+      if (!is_readable(ar)) break;
+      s.push_back(c);
+    }
+  }
+  else{
+    for (uint32_t i=0;i<length;i++)
+      ar & s[i];
+  }
 }
 
 class string_type : public type_rep {
diff --git a/src/data/serialization/unordered_map.h b/src/data/serialization/unordered_map.h
index a3750f2..f6b9f68 100644
--- a/src/data/serialization/unordered_map.h
+++ b/src/data/serialization/unordered_map.h
@@ -48,10 +48,12 @@ void serialize(Archive &ar, unordered_map<K, V, H, P, A> &m)
   ar & size;
 
   if (ar.is_read){
+    if (!is_readable(ar)) return;
     m.clear();
     while(size--){
       std::pair<K,V> v;
       ar & v;
+      if (!is_readable(ar)) break;
       m.insert(v);
     }
   }
diff --git a/src/data/serialization/unordered_set.h b/src/data/serialization/unordered_set.h
index 8820521..4f0c8d5 100644
--- a/src/data/serialization/unordered_set.h
+++ b/src/data/serialization/unordered_set.h
@@ -48,10 +48,12 @@ void serialize(Archive &ar, unordered_set<T, H, P, A> &s)
   ar & size;
 
   if (ar.is_read){
+    if (!is_readable(ar)) return;
     s.clear();
     while(size--){
       T v;
       ar & v;
+      if (!is_readable(ar)) break;
       s.insert(v);
     }
   }
diff --git a/src/data/serialization/vector.h b/src/data/serialization/vector.h
index ed71c70..84d2f56 100644
--- a/src/data/serialization/vector.h
+++ b/src/data/serialization/vector.h
@@ -48,7 +48,8 @@ void serialize(Archive &ar, std::vector<T, Allocator> &v)
   ar & size;
 
   if (ar.is_read) {
-    v.reserve(size);
+    if (!is_readable(ar)) return;
+    v.reserve(std::min<size_t>(size, v.size() + 65536));
     v.resize(std::min<size_t>(size, v.size()));
     for (size_t i = 0; i < v.size(); ++i) {
       ar & v[i];
@@ -56,6 +57,7 @@ void serialize(Archive &ar, std::vector<T, Allocator> &v)
     for (size_t i = v.size(); i < size; ++i) {
       T t = T();
       ar & t;
+      if (!is_readable(ar)) break;
       v.push_back(t);
     }
   } else {
-- 
2.43.0


From ee1909c7d98deaeec0fde345c10208a40db747b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:17 +0000
Subject: [PATCH 13/90] fix: serialization: read a bool byte without forming an
 invalid bool

---
 src/data/serialization/base.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/data/serialization/base.h b/src/data/serialization/base.h
index af9148c..61e5d73 100644
--- a/src/data/serialization/base.h
+++ b/src/data/serialization/base.h
@@ -134,7 +134,6 @@ binary_iarchive& operator>>(binary_iarchive& ar, const T& v)
     if (ar) n = pfi::system::endian::from_little(tmp); \
   }
 
-gen_serial_binary_iarchive(bool);
 gen_serial_binary_iarchive(char);
 gen_serial_binary_iarchive(signed char);
 gen_serial_binary_iarchive(unsigned char);
@@ -152,6 +151,14 @@ gen_serial_binary_iarchive(long double);
 
 #undef gen_serial_binary_iarchive
 
+// any byte may come from outside, but a bool may only hold 0 or 1
+inline void serialize(binary_iarchive& ar, bool& n)
+{
+  unsigned char tmp;
+  ar.read<sizeof(tmp)>(reinterpret_cast<char*>(&tmp));
+  if (ar) n = tmp != 0;
+}
+
 class binary_oarchive : public pfi::lang::safe_bool<binary_oarchive> {
   binary_oarchive(const binary_oarchive&);
   binary_oarchive& operator=(const binary_oarchive&);
-- 
2.43.0


From ea994e6c9b148554b3652f5f0f778a2363942357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:17 +0000
Subject: [PATCH 14/90] fix: intern: check the ids read from an archive

---
 src/data/intern.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/data/intern.h b/src/data/intern.h
index 6d92a18..2f20f7f 100644
--- a/src/data/intern.h
+++ b/src/data/intern.h
@@ -32,6 +32,7 @@
 #ifndef INCLUDE_GUARD_PFI_DATA_INTERN_H_
 #define INCLUDE_GUARD_PFI_DATA_INTERN_H_
 
+#include <stdexcept>
 #include <vector>
 
 #include "unordered_map.h"
@@ -135,9 +136,15 @@ private:
     if (ar.is_read) {
       intern tmp;
       ar & tmp.tbl;
+      if (!serialization::is_readable(ar)) return;
       tmp.lbt.resize(tmp.tbl.size());
-      for (typename map_t::iterator it = tmp.tbl.begin(); it != tmp.tbl.end(); ++it)
+      std::vector<bool> used(tmp.tbl.size());
+      for (typename map_t::iterator it = tmp.tbl.begin(); it != tmp.tbl.end(); ++it) {
+        if (!tmp.exist_id(it->second) || used[it->second])
+          throw std::runtime_error("intern: broken archive");
+        used[it->second] = true;
         tmp.lbt[it->second] = it->first;
+      }
       swap(tmp);
     } else {
       ar & tbl;
-- 
2.43.0


From d55e3fcc280ff3ed704218763e96971dd9511616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:54 +0000
Subject: [PATCH 15/90] fix: hankaku_to_zenkaku: only the ha row takes a
 handakuten

---
 src/data/string/ustring.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/data/string/ustring.cpp b/src/data/string/ustring.cpp
index 7436b00..19e086d 100644
--- a/src/data/string/ustring.cpp
+++ b/src/data/string/ustring.cpp
@@ -74,11 +74,11 @@ static int take_dakuten_tbl[]={
 
 static int take_handakuten_tbl[]={
   //  ァアィイゥウェエォオカガキギク
-  0,0,0,0,0,0,0,0,0,0,0,0,0,1,0,1,
+  0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
   //グケゲコゴサザシジスズセゼソゾタ
-  0,1,0,1,0,1,0,1,0,1,0,1,0,1,0,1,
+  0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
   //ダチヂッツヅテデトドナニヌネノハ
-  0,1,0,0,1,0,1,0,1,0,0,0,0,0,0,1,
+  0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,1,
   //バパヒビピフブプヘベペホボポマミ
   0,0,1,0,0,1,0,0,1,0,0,1,0,0,0,0,
   //ムメモャヤュユョヨラリルレロヮワ
-- 
2.43.0


From 6d8475ec8d4f0f4904064dd41b71dd72925ac867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:54 +0000
Subject: [PATCH 16/90] fix: hankaku_to_zenkaku: keep U+FF60 instead of turning
 it into NUL

---
 src/data/string/ustring.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data/string/ustring.cpp b/src/data/string/ustring.cpp
index 19e086d..61fdd6b 100644
--- a/src/data/string/ustring.cpp
+++ b/src/data/string/ustring.cpp
@@ -51,7 +51,7 @@ namespace string {
 #define UTF_ZENKAKU_HANDAKUTEN 0x309a 
 
 static int hankaku_zenkaku_tbl[]={
-  0x0000,0x3002,0x300c,0x300d,0x3001,0x30fb,0x30f2,0x30a1,0x30a3,0x30a5,0x30a7,0x30a9,0x30e3,0x30e5,0x30e7,0x30c3, // 0xff60 - 0xff6f
+  0xff60,0x3002,0x300c,0x300d,0x3001,0x30fb,0x30f2,0x30a1,0x30a3,0x30a5,0x30a7,0x30a9,0x30e3,0x30e5,0x30e7,0x30c3, // 0xff60 - 0xff6f
   0x30fc,0x30a2,0x30a4,0x30a6,0x30a8,0x30aa,0x30ab,0x30ad,0x30af,0x30b1,0x30b3,0x30b5,0x30b7,0x30b9,0x30bb,0x30bd, // 0xff70 - 0xff7f
   0x30bf,0x30c1,0x30c4,0x30c6,0x30c8,0x30ca,0x30cb,0x30cc,0x30cd,0x30ce,0x30cf,0x30d2,0x30d5,0x30d8,0x30db,0x30de, // 0xff80 - 0xff8f
   0x30df,0x30e0,0x30e1,0x30e2,0x30e4,0x30e6,0x30e8,0x30e9,0x30ea,0x30eb,0x30ec,0x30ed,0x30ef,0x30f3,0x3099,0x309a // 0xff90 - 0x9f
-- 
2.43.0


From 7e490412e600e05eea124403c7dfefe8d264dbe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:31:09 +0000
Subject: [PATCH 17/90] fix: csv: stay inside the input and the row buffer

---
 src/text/csv.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/text/csv.h b/src/text/csv.h
index b86a722..9f9d0b0 100644
--- a/src/text/csv.h
+++ b/src/text/csv.h
@@ -114,12 +114,12 @@ private:
       for (size_t bufcnt=0; ; ){
         size_t start=bufcnt;
 
-        if (*p=='\"'){
+        if (p != q && *p=='\"'){
           p++;
-          for (;;){
+          while (p != q){
             if (*p=='\"'){
               p++;
-              if (*p!='\"') break;
+              if (p == q || *p!='\"') break;
             }
             if (bufcnt>=buf.size()) extend();
             buf[bufcnt++]=*p++;
@@ -133,10 +133,12 @@ private:
           }
         }
 
+        if (bufcnt>=buf.size()) extend();
         buf[bufcnt++]='\0';
         cur.push_back(&buf[start]);
         if (p == q) break;
         if (*p=='\r') p++;
+        if (p == q) break;
         if (*p=='\n'){ p++; break; }
         p++;
       }
-- 
2.43.0


From 9e6c2c46f0adde9061703b91ce5de7bcd6b2f7b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:31:09 +0000
Subject: [PATCH 18/90] fix: csv_iterator: copies keep the row they were copied
 with

---
 src/text/csv.h | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/text/csv.h b/src/text/csv.h
index 9f9d0b0..a90c3c7 100644
--- a/src/text/csv.h
+++ b/src/text/csv.h
@@ -32,6 +32,7 @@
 #ifndef INCLUDE_GUARD_PFI_TEXT_CSV_H_
 #define INCLUDE_GUARD_PFI_TEXT_CSV_H_
 
+#include <algorithm>
 #include <iterator>
 #include <vector>
 #include <string>
@@ -191,12 +192,28 @@ public:
 
   csv_iterator(const csv_iterator &r)
     : p(r.p), cached(false) {
-    if (p){
+    if (r.cached){
+      cached=true;
+      buf=r.buf;
+      cur.resize(r.cur.size());
+      for (size_t i=0; i<cur.size(); i++)
+        cur[i]=&buf[0]+(r.cur[i]-&r.buf[0]);
+    }
+    else if (p){
       cached=true;
       p->copy(cur, buf);
     }
   }
 
+  csv_iterator &operator=(const csv_iterator &r){
+    csv_iterator tmp(r);
+    std::swap(p, tmp.p);
+    std::swap(cached, tmp.cached);
+    cur.swap(tmp.cur);
+    buf.swap(tmp.buf);
+    return *this;
+  }
+
   bool operator==(const csv_iterator &r) const{
     if (!p && !r.p) return true;
     return false;
-- 
2.43.0


From 5b3ca49cb3f791e93c4196f0df576aa47cb73869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:05 +0000
Subject: [PATCH 19/90] fix: json: print strings past an embedded NUL

---
 src/text/json/base.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/text/json/base.h b/src/text/json/base.h
index b608a95..32ff293 100644
--- a/src/text/json/base.h
+++ b/src/text/json/base.h
@@ -297,13 +297,14 @@ public:
     if (escape) {
       const char* p = dat.c_str();
       const char* end = p + dat.size();
-      while (*p) {
+      while (p != end) {
         pfi::data::string::uchar uc = pfi::data::string::chars_to_uchar(p, end);
         print_char(os, uc);
       }
     } else {
       const char* p = dat.c_str();
-      while (*p) {
+      const char* end = p + dat.size();
+      while (p != end) {
         print_char_without_escape(os, *p++);
       }
     }
-- 
2.43.0


From 13f4ddc6531c55cfb2ab0ececb16e0118c624318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:05 +0000
Subject: [PATCH 20/90] fix: json: skip trailing white space that was read
 ahead

---
 src/text/json/parser.cpp | 2 +-
 src/text/json/parser.h   | 6 +++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/text/json/parser.cpp b/src/text/json/parser.cpp
index e00e6ed..26ef255 100644
--- a/src/text/json/parser.cpp
+++ b/src/text/json/parser.cpp
@@ -138,7 +138,7 @@ json json_parser::parse()
 void json_parser::parse_stream(callback& cb)
 {
   ss();
-  if (cbuf < 0 && it == end)
+  if (!has_next())
     throw lang::end_of_data("json_parser reached end of data");
   return parse_impl(cb);
 }
diff --git a/src/text/json/parser.h b/src/text/json/parser.h
index 686f930..7f0113a 100644
--- a/src/text/json/parser.h
+++ b/src/text/json/parser.h
@@ -95,6 +95,10 @@ private:
     return 0;
   }
 
+  bool has_next() const {
+    return cbuf >= 0 || it != end;
+  }
+
   int peek() {
     if (cbuf < 0) {
       if (it != end)
@@ -115,7 +119,7 @@ private:
     return c;
   }
   void ss() {
-    while(it != end && safe_isspace(peek()))
+    while(has_next() && safe_isspace(peek()))
       incr();
   }
 
-- 
2.43.0


From 7368579750bb5f8675b2ee4f3a82ba080095fe46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:05 +0000
Subject: [PATCH 21/90] fix: json: require digits in numbers and do not drop
 the last one at the end of input

---
 src/text/json/parser.cpp | 34 ++++++++++++++++------------------
 src/text/json/parser.h   |  1 +
 2 files changed, 17 insertions(+), 18 deletions(-)

diff --git a/src/text/json/parser.cpp b/src/text/json/parser.cpp
index 26ef255..66b411f 100644
--- a/src/text/json/parser.cpp
+++ b/src/text/json/parser.cpp
@@ -232,6 +232,17 @@ void json_parser::parse_array(callback& cb)
   cb.end_array();
 }
 
+void json_parser::parse_digits(std::string& src)
+{
+  if (!safe_isdigit(peek()))
+    error("digit required in number.");
+
+  while (has_next() && safe_isdigit(peek())) {
+    src += peek();
+    incr();
+  }
+}
+
 void json_parser::parse_number(callback& cb)
 {
   std::string src;
@@ -242,38 +253,25 @@ void json_parser::parse_number(callback& cb)
     incr();
   }
 
-  while ((cbuf != -1 || it != end) && safe_isdigit(peek())) {
-    src += peek();
-    incr();
-  }
+  parse_digits(src);
 
-  if (it != end && peek() == '.') {
+  if (has_next() && peek() == '.') {
     is_frac = true;
     src += '.';
     incr();
-    while (it != end && safe_isdigit(peek())) {
-      src += peek();
-      incr();
-    }
+    parse_digits(src);
   }
 
-  if (it != end && (peek() == 'e' || peek() == 'E')) {
+  if (has_next() && (peek() == 'e' || peek() == 'E')) {
     is_frac = true;
     src += peek();
     incr();
 
-    if (it == end)
-      error("after exp, digit required.");
-
     if (peek() == '+' || peek() == '-') {
       src += peek();
       incr();
     }
-  }
-
-  while (it != end && safe_isdigit(peek())) {
-    src += peek();
-    incr();
+    parse_digits(src);
   }
 
   const char* srcptr = src.c_str();
diff --git a/src/text/json/parser.h b/src/text/json/parser.h
index 7f0113a..62bf211 100644
--- a/src/text/json/parser.h
+++ b/src/text/json/parser.h
@@ -74,6 +74,7 @@ private:
   void parse_impl(callback& cb);
   void parse_object(callback& cb);
   void parse_array(callback& cb);
+  void parse_digits(std::string& src);
   void parse_number(callback& cb);
   void parse_string(callback& cb);
   void parse_false(callback& cb);
-- 
2.43.0


From fefe936dfd79c0b8d61dd48756d81e191141f070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:05 +0000
Subject: [PATCH 22/90] fix: json: accept subnormal numbers, which the library
 itself prints

---
 src/text/json/parser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/text/json/parser.cpp b/src/text/json/parser.cpp
index 66b411f..c688616 100644
--- a/src/text/json/parser.cpp
+++ b/src/text/json/parser.cpp
@@ -281,11 +281,11 @@ void json_parser::parse_number(callback& cb)
     errno = 0;
     double num = strtod(srcptr, &endptr);
     if (errno == ERANGE) {
-      if (num == HUGE_VALF || num == HUGE_VALL)
+      if (num == HUGE_VAL || num == -HUGE_VAL)
         error("strtod overflow range over. Too huge value for double.");
       else if (num == 0.0)
         error("strtod underflow range over.");
-      error("strtod range over.");
+      // a subnormal number is representable
     }
     cb.number(num);
   } else {
-- 
2.43.0


From ebdbd90107041634b74842b94f51aa62771f3bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:19 +0000
Subject: [PATCH 23/90] fix: json: refuse documents nested so deeply that
 parsing them exhausts the stack

---
 src/text/json/parser.cpp |  4 +++-
 src/text/json/parser.h   | 18 ++++++++++++++++++
 2 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/text/json/parser.cpp b/src/text/json/parser.cpp
index c688616..2742b66 100644
--- a/src/text/json/parser.cpp
+++ b/src/text/json/parser.cpp
@@ -116,7 +116,7 @@ public:
 };
 
 json_parser::json_parser(std::istream& is)
-  : it(is), end(), lineno(1), charno(1), cbuf(-1)
+  : it(is), end(), depth(0), lineno(1), charno(1), cbuf(-1)
 {
   buf_len = 256;
   if ((buf = static_cast<char*>(malloc(buf_len))) == 0)
@@ -189,6 +189,7 @@ void json_parser::parse_impl(callback& cb)
 
 void json_parser::parse_object(callback& cb)
 {
+  nest n(*this);
   cb.start_object();
 
   smatch('{');
@@ -214,6 +215,7 @@ void json_parser::parse_object(callback& cb)
 
 void json_parser::parse_array(callback& cb)
 {
+  nest n(*this);
   cb.start_array();
 
   smatch('[');
diff --git a/src/text/json/parser.h b/src/text/json/parser.h
index 62bf211..c0bd898 100644
--- a/src/text/json/parser.h
+++ b/src/text/json/parser.h
@@ -159,6 +159,24 @@ private:
 
   std::istreambuf_iterator<char> it, end;
 
+  class nest {
+  public:
+    explicit nest(json_parser& p) : p(p) {
+      if (p.depth >= max_depth)
+        p.error("nested too deeply.");
+      ++p.depth;
+    }
+    ~nest() { --p.depth; }
+
+  private:
+    json_parser& p;
+  };
+  friend class nest;
+
+  // values are parsed, printed and destroyed recursively
+  static const int max_depth = 5000;
+  int depth;
+
   int lineno, charno;
   int cbuf;
 
-- 
2.43.0


From 12d7425b9f2be893fe0bd0ce7e67e0193645efa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:19 +0000
Subject: [PATCH 24/90] fix: json_cast<int>: refuse an integer that does not
 fit instead of truncating it

---
 src/text/json/cast.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/text/json/cast.h b/src/text/json/cast.h
index 562604f..2341567 100644
--- a/src/text/json/cast.h
+++ b/src/text/json/cast.h
@@ -33,6 +33,7 @@
 #define INCLUDE_GUARD_PFI_TEXT_JSON_CAST_H_
 
 #include <algorithm>
+#include <climits>
 #include <string>
 #include <typeinfo>
 
@@ -107,13 +108,17 @@ inline long long json_cast_with_default(const json& js, const long long& def)
 template <>
 inline int json_cast_impl(const json& js)
 {
-  return static_cast<int>(json_cast<int64_t>(js));
+  const int64_t n = json_cast<int64_t>(js);
+  if (n < INT_MIN || INT_MAX < n)
+    return detail::throw_json_bad_cast<int>(js);
+  return static_cast<int>(n);
 }
 
 template <>
 inline int json_cast_with_default(const json& js, const int& def)
 {
-  return static_cast<int>(json_cast_with_default<int64_t>(js, def));
+  const int64_t n = json_cast_with_default<int64_t>(js, def);
+  return n < INT_MIN || INT_MAX < n ? def : static_cast<int>(n);
 }
 
 template <>
-- 
2.43.0


From 46bb866e41cc44e0a0c8b08541ef7b04c03a648e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:19 +0000
Subject: [PATCH 25/90] fix: json_cast_with_default: do not read an
 uninitialised default for optional

---
 src/text/json/cast.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/text/json/cast.h b/src/text/json/cast.h
index 2341567..4bb15d5 100644
--- a/src/text/json/cast.h
+++ b/src/text/json/cast.h
@@ -579,7 +579,7 @@ inline void serialize(json_iarchive_cast_with_default& js, pfi::data::optional<T
   if (is<json_null>(js.get()))
     v = pfi::data::optional<T>();
   else {
-    T t;
+    T t = v ? *v : T();
     serialize(js, t);
     v = t;
   }
-- 
2.43.0


From 5a7796d20934453f6afd61e9e4a55238dadc332d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:29 +0000
Subject: [PATCH 26/90] fix: ratio: gcd truncated long long operands to int

---
 src/math/ratio.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/math/ratio.h b/src/math/ratio.h
index 6f51542..2a57497 100644
--- a/src/math/ratio.h
+++ b/src/math/ratio.h
@@ -59,7 +59,8 @@ public:
 private:
   T num_, den_;
   static T gcd(T a, T b){
-    a=abs(a); b=abs(b);
+    if(a<0) a=-a;
+    if(b<0) b=-b;
     while(true){
       a=a%b;
       if(a==0) return b;
-- 
2.43.0


From d54cd8486cef2323ba60d9c882c6156e5f226480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:29 +0000
Subject: [PATCH 27/90] fix: ratio: a/=a read the numerator it had just
 overwritten

---
 src/math/ratio.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/math/ratio.h b/src/math/ratio.h
index 2a57497..e17809d 100644
--- a/src/math/ratio.h
+++ b/src/math/ratio.h
@@ -118,8 +118,9 @@ template<class T>
 inline ratio<T>& operator/=(ratio<T> &a, const ratio<T> &b){
   T gcd1=ratio<T>::gcd(a.num_, b.num_);
   T gcd2=ratio<T>::gcd(a.den_, b.den_);
+  const T den=(a.den_/gcd2)*(b.num_/gcd1);
   a.num_=(a.num_/gcd1)*(b.den_/gcd2);
-  a.den_=(a.den_/gcd2)*(b.num_/gcd1);
+  a.den_=den;
   if(a.den_<0){
     a.num_*=-1; a.den_*=-1;
   }
-- 
2.43.0


From 54878be24897595da19e69ee7137f8bf022a7d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:29 +0000
Subject: [PATCH 28/90] fix: vector: outer product of array-component vectors
 named members they do not have

---
 src/math/vector.h            | 4 ++--
 src/math/vector_operators.rb | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/math/vector.h b/src/math/vector.h
index 0624997..d4c94d1 100644
--- a/src/math/vector.h
+++ b/src/math/vector.h
@@ -279,7 +279,7 @@ namespace component_by_array{
   ///outer product; outer product uses % operator.
   template<class t>
     t operator%(const vector2<t> & a, const vector2<t> & b){
-    return a.x*b.y - a.y*b.x;
+    return a.r[0]*b.r[1] - a.r[1]*b.r[0];
   }
 
   /// +=
@@ -610,7 +610,7 @@ namespace component_by_array{
   ///outer product; outer product uses % operator.
   template<class t>
     vector3<t> operator%(const vector3<t> & a, const vector3<t> & b){
-    return vector3<t>(a.y*b.z - a.z*b.y,a.z*b.x - a.x*b.z,a.x*b.y - a.y*b.x);
+    return vector3<t>(a.r[1]*b.r[2] - a.r[2]*b.r[1],a.r[2]*b.r[0] - a.r[0]*b.r[2],a.r[0]*b.r[1] - a.r[1]*b.r[0]);
   }
 
   /// +=
diff --git a/src/math/vector_operators.rb b/src/math/vector_operators.rb
index 8454b2a..d31b0f9 100644
--- a/src/math/vector_operators.rb
+++ b/src/math/vector_operators.rb
@@ -65,14 +65,14 @@ CPPEND
   ///outer product; outer product uses % operator.
   #{template_dec}
     #{scalar} operator%(const #{mytype} & a, const #{mytype} & b){
-    return a.x*b.y - a.y*b.x;
+    return a.#{cs[0]}*b.#{cs[1]} - a.#{cs[1]}*b.#{cs[0]};
   }
 CPPEND
   ret+= <<CPPEND if dim == 3 
   ///outer product; outer product uses % operator.
   #{template_dec}
     #{mytype} operator%(const #{mytype} & a, const #{mytype} & b){
-    return #{constructor['a.y*b.z - a.z*b.y', 'a.z*b.x - a.x*b.z', 'a.x*b.y - a.y*b.x' ]};
+    return #{constructor[*[[1,2],[2,0],[0,1]].map{|i,j| "a.#{cs[i]}*b.#{cs[j]} - a.#{cs[j]}*b.#{cs[i]}"}]};
   }
 CPPEND
 
-- 
2.43.0


From 300507254484944aebaac3c15c30b40485377766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:29 +0000
Subject: [PATCH 29/90] fix: fft2d: reject bad shapes before transforming any
 row, and a zero pitch without dividing by it

---
 src/math/fft.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/math/fft.h b/src/math/fft.h
index 8c56cd0..4b4cb9f 100644
--- a/src/math/fft.h
+++ b/src/math/fft.h
@@ -117,10 +117,12 @@ inline void fft2d_wrap(Iterator a, Iterator b, size_t pitch, int flip)
 {
   typedef typename std::iterator_traits<Iterator>::value_type value_type;
 
+  if (!is_pow2(pitch)) throw std::length_error("fft: length must be power of 2");
   size_t n=b-a;
   size_t h=n/pitch;
   size_t w=pitch;
   if (h*w!=n) throw std::length_error("fft2d: argument is not rectangle");
+  if (!is_pow2(h)) throw std::length_error("fft: length must be power of 2");
 
   for (size_t y=0; y<h; y++)
     fft_wrap(a+y*w, a+y*w+w, flip);
@@ -143,7 +145,7 @@ inline void fft2d_wrap(Matrix &a, int flip)
   size_t h=a.size();
   if (!is_pow2(h)) throw std::length_error("fft: length must be power of 2");
   size_t w=a[0].size();
-  if (!is_pow2(h)) throw std::length_error("fft: length must be power of 2");
+  if (!is_pow2(w)) throw std::length_error("fft: length must be power of 2");
 
   for (size_t y=0; y<h; y++)
     if (a[y].size()!=w)
-- 
2.43.0


From 1eb888fe1dcf0e37a45e5c20607d9b1c986b6b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:50 +0000
Subject: [PATCH 30/90] fix: mmapper: the move constructor unmapped and closed
 what it had just taken over

---
 src/system/mmapper.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/system/mmapper.h b/src/system/mmapper.h
index 204244b..85a9b71 100644
--- a/src/system/mmapper.h
+++ b/src/system/mmapper.h
@@ -47,8 +47,8 @@ public:
   typedef const char* const_iterator;
 
   mmapper() : ptr(NULL), length(0), fd(-1) {}
-  mmapper(mmapper&& rhs) : ptr(std::move(rhs.ptr)), length(std::move(rhs.length)), fd(std::move(rhs.fd)) {
-    mmapper().swap(rhs);
+  mmapper(mmapper&& rhs) : ptr(NULL), length(0), fd(-1) {
+    swap(rhs);
   }
   ~mmapper() { close(); }
 
-- 
2.43.0


From eead4ba2ffa20e39899ce00bcf74419bee73f78b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:50 +0000
Subject: [PATCH 31/90] fix: mmapper: a closed map has size 0

---
 src/system/mmapper.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/system/mmapper.cpp b/src/system/mmapper.cpp
index ce1af2e..7be2842 100644
--- a/src/system/mmapper.cpp
+++ b/src/system/mmapper.cpp
@@ -79,6 +79,7 @@ int mmapper::close()
     munmap(ptr, length);
     ptr = NULL;
   }
+  length = 0;
   return 0;
 }
 
-- 
2.43.0


From 75ee9d840a1810ebc4e63e906efbd5c73f39e9ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:50 +0000
Subject: [PATCH 32/90] fix: calendar_time: the component constructor read
 isdst before anything set it

---
 src/system/time_util.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/system/time_util.cpp b/src/system/time_util.cpp
index 1b0761c..73ea24b 100644
--- a/src/system/time_util.cpp
+++ b/src/system/time_util.cpp
@@ -39,7 +39,7 @@ namespace pfi{
 namespace system{
 namespace time{
 
-clock_time::clock_time(const calendar_time &ct)
+static time_t to_time_t(const calendar_time &ct, int isdst)
 {
   tm t={};
   t.tm_sec=ct.sec;
@@ -48,9 +48,14 @@ clock_time::clock_time(const calendar_time &ct)
   t.tm_mday=ct.mday;
   t.tm_mon=ct.mon-1;
   t.tm_year=ct.year-1900;
-  t.tm_isdst=ct.isdst;
+  t.tm_isdst=isdst;
+
+  return mktime(&t);
+}
 
-  time_t r=mktime(&t);
+clock_time::clock_time(const calendar_time &ct)
+{
+  time_t r=to_time_t(ct, ct.isdst);
 
   sec=static_cast<uint64_t>(r);
   usec=static_cast<int32_t>(ct.usec);
@@ -99,7 +104,8 @@ calendar_time::calendar_time(
   , sec(sec)
   , usec(usec)
 {
-  clock_time ct(*this);
+  // -1: let mktime find out whether daylight saving time is in effect
+  clock_time ct(to_time_t(*this, -1), usec);
   *this=calendar_time(ct);
 }
 
-- 
2.43.0


From 79cf5218bf2820f83ba069aa5a5ea31960d30590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:03:44 +0000
Subject: [PATCH 33/90] fix: uri: userinfo skipped three more characters after
 each escape, past the end of the text

---
 src/network/uri.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/network/uri.cpp b/src/network/uri.cpp
index 140c5ea..929be19 100644
--- a/src/network/uri.cpp
+++ b/src/network/uri.cpp
@@ -326,10 +326,8 @@ bool uri::parse_userinfo(const char *&p)
       p++;
       continue;
     }
-    if (parse_pct_encoded(p)){
-      p+=3;
+    if (parse_pct_encoded(p))
       continue;
-    }
     break;
   }
 
-- 
2.43.0


From 27c62317558c629ade76a1cd4b8523b04406cc3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:03:44 +0000
Subject: [PATCH 34/90] fix: uri: read the whole address of an IPvFuture
 literal

---
 src/network/uri.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/network/uri.cpp b/src/network/uri.cpp
index 929be19..1785ff9 100644
--- a/src/network/uri.cpp
+++ b/src/network/uri.cpp
@@ -402,9 +402,9 @@ bool uri::parse_ipvfuture(const char *&p)
       *p!=':')
     return false;
 
-  while(!is_unreserved(*p)&&
-      !is_sub_delims(*p)&&
-      *p!=':')
+  while(is_unreserved(*p)||
+      is_sub_delims(*p)||
+      *p==':')
     p++;
 
   return true;
-- 
2.43.0


From 7b6c60739f976790a6bd84053bbec0e5f136c0ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:03:44 +0000
Subject: [PATCH 35/90] fix: uri: accept registered names that begin like an
 IPv4 address

---
 src/network/uri.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/network/uri.cpp b/src/network/uri.cpp
index 1785ff9..8242619 100644
--- a/src/network/uri.cpp
+++ b/src/network/uri.cpp
@@ -341,8 +341,7 @@ bool uri::parse_host(const char *&p)
   const char *org=p;
 
   if (!parse_ip_literal(p)&&
-      !(p=org, parse_ipv4address(p))&&
-      !(p=org, parse_reg_name(p)))
+      !(p=org, parse_reg_name(p))) // takes IPv4 addresses, too
     return false;
 
   host_=string(org,p);
-- 
2.43.0


From eb516b07295b13f835e395a623685b10a304597e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:03:44 +0000
Subject: [PATCH 36/90] fix: uri: IPv6 groups have one to four digits and "::"
 may replace any number of them

---
 src/network/uri.cpp | 59 ++++++++++++++++-----------------------------
 src/network/uri.h   |  1 +
 2 files changed, 22 insertions(+), 38 deletions(-)

diff --git a/src/network/uri.cpp b/src/network/uri.cpp
index 8242619..7676033 100644
--- a/src/network/uri.cpp
+++ b/src/network/uri.cpp
@@ -469,8 +469,7 @@ bool uri::parse_ipv6_2(const char *&p)
 
 bool uri::parse_ipv6_3(const char *&p)
 {
-  const char *org=p;
-  if (!parse_h16(p)) p=org;
+  parse_h16_upto(p, 1);
   if (*p++!=':' || *p++!=':') return false;
   if (!parse_h16(p) || *p++!=':') return false;
   if (!parse_h16(p) || *p++!=':') return false;
@@ -482,9 +481,7 @@ bool uri::parse_ipv6_3(const char *&p)
 
 bool uri::parse_ipv6_4(const char *&p)
 {
-  const char *org=p;
-  if (!parse_h16(p) || *p++!=':' ||
-      !parse_h16(p)) p=org;
+  parse_h16_upto(p, 2);
   if (*p++!=':' || *p++!=':') return false;
   if (!parse_h16(p) || *p++!=':') return false;
   if (!parse_h16(p) || *p++!=':') return false;
@@ -495,10 +492,7 @@ bool uri::parse_ipv6_4(const char *&p)
 
 bool uri::parse_ipv6_5(const char *&p)
 {
-  const char *org=p;
-  if (!parse_h16(p) || *p++!=':' ||
-      !parse_h16(p) || *p++!=':' ||
-      !parse_h16(p)) p=org;
+  parse_h16_upto(p, 3);
   if (*p++!=':' || *p++!=':') return false;
   if (!parse_h16(p) || *p++!=':') return false;
   if (!parse_h16(p) || *p++!=':') return false;
@@ -508,11 +502,7 @@ bool uri::parse_ipv6_5(const char *&p)
 
 bool uri::parse_ipv6_6(const char *&p)
 {
-  const char *org=p;
-  if (!parse_h16(p) || *p++!=':' ||
-      !parse_h16(p) || *p++!=':' ||
-      !parse_h16(p) || *p++!=':' ||
-      !parse_h16(p)) p=org;
+  parse_h16_upto(p, 4);
   if (*p++!=':' || *p++!=':') return false;
   if (!parse_h16(p) || *p++!=':') return false;
   if (!parse_ls32(p)) return false;
@@ -521,12 +511,7 @@ bool uri::parse_ipv6_6(const char *&p)
 
 bool uri::parse_ipv6_7(const char *&p)
 {
-  const char *org=p;
-  if (!parse_h16(p) || *p++!=':' ||
-      !parse_h16(p) || *p++!=':' ||
-      !parse_h16(p) || *p++!=':' ||
-      !parse_h16(p) || *p++!=':' ||
-      !parse_h16(p)) p=org;
+  parse_h16_upto(p, 5);
   if (*p++!=':' || *p++!=':') return false;
   if (!parse_ls32(p)) return false;
   return true;
@@ -534,13 +519,7 @@ bool uri::parse_ipv6_7(const char *&p)
 
 bool uri::parse_ipv6_8(const char *&p)
 {
-  const char *org=p;
-  if (!parse_h16(p) || *p++!=':' ||
-      !parse_h16(p) || *p++!=':' ||
-      !parse_h16(p) || *p++!=':' ||
-      !parse_h16(p) || *p++!=':' ||
-      !parse_h16(p) || *p++!=':' ||
-      !parse_h16(p)) p=org;
+  parse_h16_upto(p, 6);
   if (*p++!=':' || *p++!=':') return false;
   if (!parse_h16(p)) return false;
   return true;
@@ -548,24 +527,28 @@ bool uri::parse_ipv6_8(const char *&p)
 
 bool uri::parse_ipv6_9(const char *&p)
 {
-  const char *org=p;
-  if (!parse_h16(p) || *p++!=':' ||
-      !parse_h16(p) || *p++!=':' ||
-      !parse_h16(p) || *p++!=':' ||
-      !parse_h16(p) || *p++!=':' ||
-      !parse_h16(p) || *p++!=':' ||
-      !parse_h16(p) || *p++!=':' ||
-      !parse_h16(p)) p=org;
+  parse_h16_upto(p, 7);
   if (*p++!=':' || *p++!=':') return false;
   return true;
 }
 
+// at most n groups in front of "::", possibly none
+void uri::parse_h16_upto(const char *&p, int n)
+{
+  for (int i=0;i<n;i++){
+    const char *org=p;
+    if ((i>0 && *p++!=':') || !parse_h16(p)){
+      p=org;
+      break;
+    }
+  }
+}
+
 bool uri::parse_h16(const char *&p)
 {
   if (!isxdigit(*p++)) return false;
-  if (!isxdigit(*p++)) return false; 
-  if (!isxdigit(*p++)) return false;
-  if (!isxdigit(*p++)) return false;
+  for (int i=0;i<3 && isxdigit(*p);i++)
+    p++;
   return true;
 }
 
diff --git a/src/network/uri.h b/src/network/uri.h
index 39e78aa..4b02cbc 100644
--- a/src/network/uri.h
+++ b/src/network/uri.h
@@ -82,6 +82,7 @@ private:
   bool parse_ipv6_8(const char *&p);
   bool parse_ipv6_9(const char *&p);
   bool parse_h16(const char *&p);
+  void parse_h16_upto(const char *&p, int n);
   bool parse_ls32(const char *&p);
   bool parse_ipv4address(const char *&p);
   bool parse_dec_octet(const char *&p);
-- 
2.43.0


From 19b3907b52fd3621fcf8be50586d24ccbc12b239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:03:44 +0000
Subject: [PATCH 37/90] fix: ipv4_address: refuse text after or round the four
 octets and octets that overflow int

---
 src/network/ipv4.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/network/ipv4.h b/src/network/ipv4.h
index a0ec2a6..a0df8e5 100644
--- a/src/network/ipv4.h
+++ b/src/network/ipv4.h
@@ -57,7 +57,9 @@ public:
 
   explicit ipv4_address(const std::string& s) {
     int buf[4];
-    if (std::sscanf(s.c_str(), "%d.%d.%d.%d", &buf[0], &buf[1], &buf[2], &buf[3]) != 4) {
+    char rest;
+    if (s.find_first_not_of("0123456789.") != std::string::npos ||
+        std::sscanf(s.c_str(), "%3d.%3d.%3d.%3d%c", &buf[0], &buf[1], &buf[2], &buf[3], &rest) != 4) {
       *this = none;
       return;
     }
-- 
2.43.0


From 6b8c26e0a9d50b527db9ff6c970aba6491a090c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:03:44 +0000
Subject: [PATCH 38/90] fix: stream_socket: do not carry buffered bytes of one
 connection into the next

---
 src/network/socket.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/network/socket.cpp b/src/network/socket.cpp
index 5c2a51f..7a18a08 100644
--- a/src/network/socket.cpp
+++ b/src/network/socket.cpp
@@ -173,6 +173,10 @@ bool stream_socket::open()
     sock=-1;
     return false;
   }
+
+  // nothing buffered for an earlier connection belongs to the next one
+  rdbuf_p=rdbuf_end=0;
+  wrbuf_size=0;
   return true;
 }
 
-- 
2.43.0


From 0fd913da6ff131842a80e0c594d7fa500bff9016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:03:44 +0000
Subject: [PATCH 39/90] fix: server_socket: creating it again leaked the first
 descriptor

---
 src/network/socket.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/network/socket.cpp b/src/network/socket.cpp
index 7a18a08..c746623 100644
--- a/src/network/socket.cpp
+++ b/src/network/socket.cpp
@@ -447,6 +447,8 @@ bool server_socket::create(uint16_t port_num, int backlog)
 {
   int res;
 
+  close();
+
   NO_INTR(sock, ::socket(PF_INET, SOCK_STREAM, 0));
   if (FAILED(sock)){
     sock=-1;
-- 
2.43.0


From 627c1aa9b324892ff92c53819890d4a91b88b7d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:03:44 +0000
Subject: [PATCH 40/90] fix: socketstream: a stream without a socket fails
 instead of dereferencing a null pointer

---
 src/network/iostream.h | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/network/iostream.h b/src/network/iostream.h
index bbc9922..522de84 100644
--- a/src/network/iostream.h
+++ b/src/network/iostream.h
@@ -86,33 +86,34 @@ public:
   }
 
   bool is_connected() const{
-    if (!sock->get()) return false;
-    return sock->get()->is_connected();
+    if (!socket()) return false;
+    return socket()->is_connected();
   }
 
   stream_socket *socket() const{
-    return sock->get();
+    return sock?sock->get():NULL;
   }
 
   // virtual protected members
 
   std::streamsize xsputn(const char_type *s, std::streamsize n){
-    if (!sock->get()) return 0;
-    int res=sock->get()->write(s, sizeof(char_type)*n);
+    if (!socket()) return 0;
+    int res=socket()->write(s, sizeof(char_type)*n);
     if (res<0) return 0;
     return res;
   }
 
   int overflow(int c){
-    if (!sock->get()) return T::eof();
+    if (!socket()) return T::eof();
     char d=static_cast<char>(c);
-    int res=sock->get()->write(&d, sizeof(char_type));
+    int res=socket()->write(&d, sizeof(char_type));
     if (res<0) return T::eof();
     return res==0?T::eof():0;
   }
 
   int sync(){
-    int res=sock->get()->flush();
+    if (!socket()) return -1;
+    int res=socket()->flush();
     return res<0?0:-1;
   }
 
@@ -124,8 +125,8 @@ public:
 
   int underflow(){
     if (buf==T::eof()){
-      if (!sock->get()) return T::eof();
-      buf=sock->get()->getc();
+      if (!socket()) return T::eof();
+      buf=socket()->getc();
     }
     return buf;
   }
-- 
2.43.0


From f6924220eb795a345a3dee1f1ca6f5a0d486953b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:03:44 +0000
Subject: [PATCH 41/90] fix: socketstream: do not deliver a byte peeked on the
 previous connection

---
 src/network/iostream.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/network/iostream.h b/src/network/iostream.h
index 522de84..66fda67 100644
--- a/src/network/iostream.h
+++ b/src/network/iostream.h
@@ -57,6 +57,7 @@ public:
 
   bool connect(const std::string &host, uint16_t port){
     pfi::lang::shared_ptr<stream_socket> sock(new stream_socket());
+    buf=T::eof();
     this->sock=
       pfi::lang::shared_ptr<socket_holder>
       (new socket_holder_impl<pfi::lang::shared_ptr<stream_socket> >(sock));
@@ -82,6 +83,7 @@ private:
 public:
   template <class PSOCK>
   void setsock(PSOCK sock){
+    buf=T::eof();
     this->sock=pfi::lang::shared_ptr<socket_holder>(new socket_holder_impl<PSOCK>(sock));
   }
 
-- 
2.43.0


From 806942d9c16de638ebe56c2be22109b8fee15c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:18 +0000
Subject: [PATCH 42/90] fix: http: a 0xff byte in a chunked body is not the end
 of the stream

---
 src/network/http/base.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/network/http/base.cpp b/src/network/http/base.cpp
index f8304de..0caff05 100644
--- a/src/network/http/base.cpp
+++ b/src/network/http/base.cpp
@@ -249,7 +249,7 @@ public:
       fill();
     if (empty())
       return T::eof();
-    return buf[buf_pos];
+    return T::to_int_type(buf[buf_pos]);
   }
 
 private:
-- 
2.43.0


From dde849234f24c2ae95606fceedc4a7cf6ccc9ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:18 +0000
Subject: [PATCH 43/90] fix: http: refuse chunk sizes that are negative, too
 large or no number

---
 src/network/http/base.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/network/http/base.cpp b/src/network/http/base.cpp
index 0caff05..ac9d629 100644
--- a/src/network/http/base.cpp
+++ b/src/network/http/base.cpp
@@ -320,7 +320,10 @@ private:
     // line = chunk-size [chunk-extension] CRLF
 
     istringstream iss(line);
-    iss >> hex >> chunk_rest;
+    if (!(iss >> hex >> chunk_rest) || chunk_rest < 0) {
+      shutdown();
+      throw http_exception("invalid chunk size");
+    }
   }
 
   pfi::lang::shared_ptr<stream_socket> sock;
-- 
2.43.0


From 71fc038c3868394ffb13c76cfb3ea3dc3c803a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:18 +0000
Subject: [PATCH 44/90] fix: http: a body of length 0 is empty instead of
 unlimited

---
 src/network/http/base.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/network/http/base.cpp b/src/network/http/base.cpp
index ac9d629..c9e2d32 100644
--- a/src/network/http/base.cpp
+++ b/src/network/http/base.cpp
@@ -343,7 +343,12 @@ public:
     : sock(sock),
       rest(length),
       buf(T::eof())
-  {}
+  {
+    if (rest < 0)
+      throw http_exception("invalid Content-Length");
+    if (rest == 0)
+      this->sock.reset();
+  }
 
   int uflow() {
     int ret = underflow();
-- 
2.43.0


From 09cb44248569e7dbb823cea294ef4e2c60facb81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:18 +0000
Subject: [PATCH 45/90] fix: http: headers read from a stream kept their CR and
 lost a last line without newline

---
 src/network/http/base.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/network/http/base.cpp b/src/network/http/base.cpp
index c9e2d32..a91d624 100644
--- a/src/network/http/base.cpp
+++ b/src/network/http/base.cpp
@@ -132,8 +132,11 @@ header::header(const pfi::lang::shared_ptr<stream_socket>& sock)
 
 static bool istream_getline(istream* is, string* str)
 {
-  getline(*is, *str);
-  return is->good();
+  if (!getline(*is, *str))
+    return false;
+  if (!str->empty() && (*str)[str->length()-1] == '\r')
+    str->erase(str->length()-1);
+  return true;
 }
 
 header::header(istream& is)
-- 
2.43.0


From b70a60cc1f867e88e6bcfdcd694251063da3e013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:18 +0000
Subject: [PATCH 46/90] fix: http: reading a message added empty
 Transfer-Encoding and Content-Length fields to its head

---
 src/network/http/base.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/network/http/base.cpp b/src/network/http/base.cpp
index a91d624..63a099d 100644
--- a/src/network/http/base.cpp
+++ b/src/network/http/base.cpp
@@ -448,10 +448,11 @@ request::request(const pfi::lang::shared_ptr<stream_socket>& sock)
   header_ = header(sock);
 
   // body
-  if (cicmp(header_["Transfer-Encoding"], "chunked"))
+  const header& h = header_; // do not add the fields looked up
+  if (cicmp(h["Transfer-Encoding"], "chunked"))
     stream = pfi::lang::shared_ptr<iostream>(new basic_httpbody_chunked_stream<char>(sock));
-  else if (header_["Content-Length"] != "")
-    stream = pfi::lang::shared_ptr<iostream>(new basic_httpbody_stream<char>(sock, lexical_cast<int64_t>(header_["Content-Length"])));
+  else if (h["Content-Length"] != "")
+    stream = pfi::lang::shared_ptr<iostream>(new basic_httpbody_stream<char>(sock, lexical_cast<int64_t>(h["Content-Length"])));
   else
     stream = pfi::lang::shared_ptr<iostream>(new socketstream(sock));
 }
@@ -553,10 +554,11 @@ response::response(const pfi::lang::shared_ptr<stream_socket>& sock)
   header_ = header(sock);
 
   // body
-  if (cicmp(header_["Transfer-Encoding"], "chunked"))
+  const header& h = header_; // do not add the fields looked up
+  if (cicmp(h["Transfer-Encoding"], "chunked"))
     stream = pfi::lang::shared_ptr<iostream>(new basic_httpbody_chunked_stream<char>(sock));
-  else if (header_["Content-Length"] != "")
-    stream = pfi::lang::shared_ptr<iostream>(new basic_httpbody_stream<char>(sock, lexical_cast<int64_t>(header_["Content-Length"])));
+  else if (h["Content-Length"] != "")
+    stream = pfi::lang::shared_ptr<iostream>(new basic_httpbody_stream<char>(sock, lexical_cast<int64_t>(h["Content-Length"])));
   else
     stream = pfi::lang::shared_ptr<iostream>(new socketstream(sock));
 }
-- 
2.43.0


From bed2593dd74f98513e3a39751e7abbe5a2e1f12b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:18 +0000
Subject: [PATCH 47/90] fix: http: refuse header lines beyond the limit instead
 of splitting them into further fields

---
 src/network/http/base.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/network/http/base.cpp b/src/network/http/base.cpp
index 63a099d..b16fb40 100644
--- a/src/network/http/base.cpp
+++ b/src/network/http/base.cpp
@@ -122,7 +122,11 @@ void header::read_header(pfi::lang::function<bool (string*)> f)
 
 static bool socket_getline(stream_socket* sock, string* str, int line_limit)
 {
-  return sock->getline(*str, line_limit);
+  if (!sock->getline(*str, line_limit))
+    return false;
+  if ((int)str->length() >= line_limit)
+    throw http_exception("header line is too long");
+  return true;
 }
 
 header::header(const pfi::lang::shared_ptr<stream_socket>& sock)
-- 
2.43.0


From bdcf0fd0702364af9b02b3ee6070c400d51f9bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:18 +0000
Subject: [PATCH 48/90] fix: http: refuse a status line without a status code
 instead of leaving the code uninitialised

---
 src/network/http/base.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/network/http/base.cpp b/src/network/http/base.cpp
index b16fb40..0e09b65 100644
--- a/src/network/http/base.cpp
+++ b/src/network/http/base.cpp
@@ -541,9 +541,10 @@ response::response(const pfi::lang::shared_ptr<stream_socket>& sock)
     
     istringstream iss(line);
     string ver;
-    iss >> ver >> ws >> code_ >> ws;
+    if (!(iss >> ver >> code_))
+      throw http_exception("invalid status-line");
 
-    getline(iss, reason_);
+    getline(iss >> ws, reason_);
 
     for (size_t i = 0; i < ver.length(); i++)
       ver[i] = toupper(ver[i]);
-- 
2.43.0


From af37b078acb352f97f0e77e76ece8f507416c704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:31 +0000
Subject: [PATCH 49/90] fix: cached_dns_resolver: entries never expired, their
 access time was renewed before the check

---
 src/network/dns.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/network/dns.cpp b/src/network/dns.cpp
index adcaaa1..7dcfcf1 100644
--- a/src/network/dns.cpp
+++ b/src/network/dns.cpp
@@ -186,18 +186,18 @@ vector<ipv4_address> cached_dns_resolver::impl::resolve(const string &host, uint
     if (lock) {
       // hit cache
       if (cache.count(key) != 0) {
-        // last access time
-        access_time.erase(make_pair(cache[key].second, key));
-        access_time.insert(make_pair(cur, key));
-        cache[key].second = cur;
+        time_t last = cache[key].second;
+        access_time.erase(make_pair(last, key));
 
         // is not expire
-        if (cur-cache[key].second < expire_second) {
+        if (cur-last < expire_second) {
+          // last access time
+          access_time.insert(make_pair(cur, key));
+          cache[key].second = cur;
           return cache[key].first;
         }
 
         // expire, so delete cache
-        access_time.erase(make_pair(cur, key));
         cache.erase(key);
       }
     }
-- 
2.43.0


From 0ef4e8732a02a085d7e2f62b30aebb74d8d7bae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:31 +0000
Subject: [PATCH 50/90] fix: cached_dns_resolver: concurrent lookups of one
 host left a stale access time and failed an assertion

---
 src/network/dns.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/network/dns.cpp b/src/network/dns.cpp
index 7dcfcf1..bb717c0 100644
--- a/src/network/dns.cpp
+++ b/src/network/dns.cpp
@@ -210,6 +210,12 @@ vector<ipv4_address> cached_dns_resolver::impl::resolve(const string &host, uint
   {
     pfi::concurrent::scoped_lock lock(m);
     if (lock) {
+      // another thread may have looked up the same host meanwhile
+      if (cache.count(key) != 0) {
+        access_time.erase(make_pair(cache[key].second, key));
+        cache.erase(key);
+      }
+
       // is cache full?
       while ((int)cache.size() >= max_size) {
         assert(access_time.size() == cache.size());
-- 
2.43.0


From b62211f742cf10d1a8e3f3a2bf4c75209b8db878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:31 +0000
Subject: [PATCH 51/90] fix: cached_dns_resolver: a cache of size 0 holds
 nothing instead of reading an empty set

---
 src/network/dns.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/network/dns.cpp b/src/network/dns.cpp
index bb717c0..4f773fe 100644
--- a/src/network/dns.cpp
+++ b/src/network/dns.cpp
@@ -209,7 +209,7 @@ vector<ipv4_address> cached_dns_resolver::impl::resolve(const string &host, uint
 
   {
     pfi::concurrent::scoped_lock lock(m);
-    if (lock) {
+    if (lock && max_size > 0) {
       // another thread may have looked up the same host meanwhile
       if (cache.count(key) != 0) {
         access_time.erase(make_pair(cache[key].second, key));
-- 
2.43.0


From 4c632b93117569560865dbfb5f0dd8e519a58ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:11 +0000
Subject: [PATCH 52/90] fix: rpc_server: a function that throws ends its call,
 not the server or the caller's patience

---
 src/network/rpc/base.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/network/rpc/base.cpp b/src/network/rpc/base.cpp
index 69c8a0f..e8de640 100644
--- a/src/network/rpc/base.cpp
+++ b/src/network/rpc/base.cpp
@@ -223,7 +223,10 @@ void rpc_server::process(const pfi::lang::shared_ptr<server_socket>& ssock)
       try{
         funcs[name]->invoke(ia,oa);
       }
-      catch(const rpc_error &){
+      catch(...){
+        // no result was sent: end the connection, so that the caller fails
+        // instead of waiting for it, and go on serving others
+        break;
       }
     }
   }
-- 
2.43.0


From 30115c15697b7cd62a6fc902ea54753b3f33d12b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:11 +0000
Subject: [PATCH 53/90] fix: rpc_server: do not run a function for a request
 that broke off before its version

---
 src/network/rpc/base.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/network/rpc/base.cpp b/src/network/rpc/base.cpp
index e8de640..6f1c539 100644
--- a/src/network/rpc/base.cpp
+++ b/src/network/rpc/base.cpp
@@ -213,7 +213,9 @@ void rpc_server::process(const pfi::lang::shared_ptr<server_socket>& ssock)
       }
 
       int req_ver;
-      if (ia >> req_ver && req_ver!=version){
+      if (!(ia >> req_ver))
+        break;
+      if (req_ver!=version){
         string msg(string("VersionMismatch ")+lexical_cast<string>(version)+" "+lexical_cast<string>(req_ver));
         oa<<msg;
         oa.flush();
-- 
2.43.0


From e4616144a8b7f98526baf198529373fe69e40cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:11 +0000
Subject: [PATCH 54/90] fix: rpc_server: wake every thread that waits for the
 server to stop

---
 src/network/rpc/base.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/network/rpc/base.cpp b/src/network/rpc/base.cpp
index 6f1c539..9c7f0ff 100644
--- a/src/network/rpc/base.cpp
+++ b/src/network/rpc/base.cpp
@@ -259,7 +259,7 @@ void rpc_server::notify_if_this_is_the_last_running_threads()
     }
     state = server_state::STOPPED;
   }
-  stop_condition.notify_one();
+  stop_condition.notify_all();
 }
 
 rpc_client::rpc_client(const string &host, uint16_t port, int version)
-- 
2.43.0


From 7142fe10e5e94371714eea1405fa443571a3f67b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:37 +0000
Subject: [PATCH 55/90] fix: cgi: a multipart type without a boundary is
 reported instead of throwing out_of_range

---
 src/network/cgi/base.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/network/cgi/base.cpp b/src/network/cgi/base.cpp
index c069469..38247be 100644
--- a/src/network/cgi/base.cpp
+++ b/src/network/cgi/base.cpp
@@ -99,8 +99,10 @@ void cgi::exec(istream& in,
             valid=false;
             invalid_msg="Invalid html protocol";
           }
-          string boundary=env["CONTENT_TYPE"].substr(ix+9);
-          parse_multipart_input(dat, boundary);
+          else{
+            string boundary=env["CONTENT_TYPE"].substr(ix+9);
+            parse_multipart_input(dat, boundary);
+          }
         }
         else
           parse_input(dat);
@@ -253,8 +255,10 @@ void cgi::parse_multipart_input(const string &s, const string &boundary)
     const string &ct=hd["Content-Type"];
     if (ct.find("multipart/")!=string::npos){
       string::size_type ix=ct.find("boundary=");
-      string bd=ct.substr(ix+9);
-      parse_multipart_input(body, bd);
+      if (ix!=string::npos){
+        string bd=ct.substr(ix+9);
+        parse_multipart_input(body, bd);
+      }
     }
     else{
       const string &cd=hd["Content-Disposition"];
-- 
2.43.0


From a65b9ed589243f00cea824faadf9a683904bfd49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:37 +0000
Subject: [PATCH 56/90] fix: cgi: a line of a multipart value that begins with
 -- hid the boundary after it

---
 src/network/cgi/base.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/network/cgi/base.cpp b/src/network/cgi/base.cpp
index 38247be..9dce710 100644
--- a/src/network/cgi/base.cpp
+++ b/src/network/cgi/base.cpp
@@ -228,9 +228,10 @@ void cgi::parse_multipart_input(const string &s, const string &boundary)
     ssize_t cnt=0;
     for (char a=0, b=0, c=0; iss.get(c); a=b, b=c, cnt++){
       if (a=='\n' && b=='-' && c=='-'){
+        const istringstream::pos_type here=iss.tellg();
         string chk(boundary.length(), ' ');
         iss.read(&chk[0], boundary.length());
-        if (chk==boundary){
+        if (iss && chk==boundary){
           int cnt=0;
           while(iss.get(a) && a!='\n'){
             if (a=='-'){ if (cnt>=0 && ++cnt==2) end=true; }
@@ -240,11 +241,10 @@ void cgi::parse_multipart_input(const string &s, const string &boundary)
             str.resize(str.length()-1);
           break;
         }
-        str+=a;
-        str+="--";
-        str+=chk;
-        cnt=-1;
-        continue;
+        // not the boundary: go on right after the dashes,
+        // the boundary may begin among the characters just compared
+        iss.clear();
+        iss.seekg(here);
       }
       if (cnt>=2) str+=a;
     }
-- 
2.43.0


From c7e0e717974301284d3046a5e78fb52eaf585b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:02 +0000
Subject: [PATCH 57/90] fix: cgi: a multipart body that breaks off is not taken
 for a complete part, and does not throw

---
 src/network/cgi/base.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/network/cgi/base.cpp b/src/network/cgi/base.cpp
index 9dce710..9edc99a 100644
--- a/src/network/cgi/base.cpp
+++ b/src/network/cgi/base.cpp
@@ -226,12 +226,14 @@ void cgi::parse_multipart_input(const string &s, const string &boundary)
   for (; !end; ){
     string str;
     ssize_t cnt=0;
+    bool complete=false;
     for (char a=0, b=0, c=0; iss.get(c); a=b, b=c, cnt++){
       if (a=='\n' && b=='-' && c=='-'){
         const istringstream::pos_type here=iss.tellg();
         string chk(boundary.length(), ' ');
         iss.read(&chk[0], boundary.length());
         if (iss && chk==boundary){
+          complete=true;
           int cnt=0;
           while(iss.get(a) && a!='\n'){
             if (a=='-'){ if (cnt>=0 && ++cnt==2) end=true; }
@@ -249,6 +251,9 @@ void cgi::parse_multipart_input(const string &s, const string &boundary)
       if (cnt>=2) str+=a;
     }
 
+    // the input ended inside a part
+    if (!complete) break;
+
     istringstream jss(str);
     http::header hd(jss);
     string body=(jss?str.substr(jss.tellg()):"");
-- 
2.43.0


From 597aae442c4ba654c7379721e56445af8a884dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:02 +0000
Subject: [PATCH 58/90] fix: cgi: read unquoted attributes, and quoted ones
 that contain a semicolon

---
 src/network/cgi/base.cpp | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/network/cgi/base.cpp b/src/network/cgi/base.cpp
index 9edc99a..e5e85fe 100644
--- a/src/network/cgi/base.cpp
+++ b/src/network/cgi/base.cpp
@@ -178,6 +178,17 @@ static inline string string_tolower(const string &s)
   return ret;
 }
 
+// position of the next ';' outside quotes
+static inline string::size_type find_semicolon(const string &s, string::size_type from)
+{
+  bool quoted=false;
+  for (; from<s.length(); from++){
+    if (s[from]=='\"') quoted=!quoted;
+    else if (s[from]==';' && !quoted) return from;
+  }
+  return string::npos;
+}
+
 static inline pair<string, string> extract_attr(const string &s)
 {
   string::size_type ix=s.find('=');
@@ -185,7 +196,7 @@ static inline pair<string, string> extract_attr(const string &s)
   if (ix==string::npos) return make_pair(key, "");
   ix++;
   string::size_type jx=s.find('\"', ix);
-  if (jx==string::npos) return make_pair(key, "");
+  if (jx==string::npos) return make_pair(key, trim(s.substr(ix)));
   string::size_type kx=s.find('\"', jx+1);
   if (kx==string::npos) return make_pair(key, "");
   return make_pair(key, s.substr(jx+1, kx-jx-1));
@@ -197,13 +208,13 @@ extract_header(const string &s)
   string val;
   map<string, string> attr;
 
-  string::size_type cur=s.find(';');
-  val=s.substr(0, cur);
+  string::size_type cur=find_semicolon(s, 0);
+  val=trim(s.substr(0, cur));
 
   for (; cur!=string::npos; ){
     cur++;
-    string::size_type next=s.find(';', cur);
-    attr.insert(extract_attr(s.substr(cur, next)));
+    string::size_type next=find_semicolon(s, cur);
+    attr.insert(extract_attr(s.substr(cur, next==string::npos ? next : next-cur)));
     cur=next;
   }
 
-- 
2.43.0


From 3cb339d2bc52dc6d53d1af11bda0fe89cc6ca94f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:02 +0000
Subject: [PATCH 59/90] fix: cgi: a multipart boundary may be quoted and
 followed by other parameters

---
 src/network/cgi/base.cpp | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/network/cgi/base.cpp b/src/network/cgi/base.cpp
index e5e85fe..cf4b0ee 100644
--- a/src/network/cgi/base.cpp
+++ b/src/network/cgi/base.cpp
@@ -54,6 +54,19 @@ void cgi::set_max_content_length(size_t length)
   max_content_length=length;
 }
 
+// value of the boundary parameter of a multipart type, "" if there is none
+static string find_boundary(const string &content_type)
+{
+  string::size_type ix=content_type.find("boundary=");
+  if (ix==string::npos) return "";
+  string rest=content_type.substr(ix+9);
+  if (rest!="" && rest[0]=='\"')
+    return rest.substr(1, rest.find('\"', 1)-1);
+  rest=rest.substr(0, rest.find(';'));
+  string::size_type last=rest.find_last_not_of(" \t");
+  return last==string::npos ? "" : rest.substr(0, last+1);
+}
+
 void cgi::exec(istream& in,
                ostream& out,
                ostream& /* err */,
@@ -94,15 +107,13 @@ void cgi::exec(istream& in,
       }
       else{
         if (env["CONTENT_TYPE"].find("multipart/")!=string::npos){
-          string::size_type ix=env["CONTENT_TYPE"].find("boundary=");
-          if (ix==string::npos){
+          string boundary=find_boundary(env["CONTENT_TYPE"]);
+          if (boundary==""){
             valid=false;
             invalid_msg="Invalid html protocol";
           }
-          else{
-            string boundary=env["CONTENT_TYPE"].substr(ix+9);
+          else
             parse_multipart_input(dat, boundary);
-          }
         }
         else
           parse_input(dat);
@@ -270,11 +281,8 @@ void cgi::parse_multipart_input(const string &s, const string &boundary)
     string body=(jss?str.substr(jss.tellg()):"");
     const string &ct=hd["Content-Type"];
     if (ct.find("multipart/")!=string::npos){
-      string::size_type ix=ct.find("boundary=");
-      if (ix!=string::npos){
-        string bd=ct.substr(ix+9);
-        parse_multipart_input(body, bd);
-      }
+      string bd=find_boundary(ct);
+      if (bd!="") parse_multipart_input(body, bd);
     }
     else{
       const string &cd=hd["Content-Disposition"];
-- 
2.43.0


From f1f12c2ccfca902b6e92ce00329f990c103aae3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:30 +0000
Subject: [PATCH 60/90] fix: cgi: deeply nested multipart bodies exhausted
 memory and stack

---
 src/network/cgi/base.cpp | 9 +++++++--
 src/network/cgi/base.h   | 2 +-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/network/cgi/base.cpp b/src/network/cgi/base.cpp
index cf4b0ee..c1a482f 100644
--- a/src/network/cgi/base.cpp
+++ b/src/network/cgi/base.cpp
@@ -232,8 +232,13 @@ extract_header(const string &s)
   return make_pair(val, attr);
 }
 
-void cgi::parse_multipart_input(const string &s, const string &boundary)
+// multipart bodies nested deeper than this are ignored, every level holds copies of its body
+static const int max_multipart_depth=16;
+
+void cgi::parse_multipart_input(const string &s, const string &boundary, int depth)
 {
+  if (depth>=max_multipart_depth) return;
+
   bool end=false;
 
   istringstream iss(s);
@@ -282,7 +287,7 @@ void cgi::parse_multipart_input(const string &s, const string &boundary)
     const string &ct=hd["Content-Type"];
     if (ct.find("multipart/")!=string::npos){
       string bd=find_boundary(ct);
-      if (bd!="") parse_multipart_input(body, bd);
+      if (bd!="") parse_multipart_input(body, bd, depth+1);
     }
     else{
       const string &cd=hd["Content-Disposition"];
diff --git a/src/network/cgi/base.h b/src/network/cgi/base.h
index 796b017..432d7af 100644
--- a/src/network/cgi/base.h
+++ b/src/network/cgi/base.h
@@ -86,7 +86,7 @@ protected:
 
 private:
   void parse_input(const std::string &os);
-  void parse_multipart_input(const std::string &os, const std::string &boundary);
+  void parse_multipart_input(const std::string &os, const std::string &boundary, int depth=0);
 };
 
 } // cgi
-- 
2.43.0


From 7a1feab6044aa7ed07192863e6fc651c5cb89c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:46 +0000
Subject: [PATCH 61/90] fix: cgi run_server: a program that throws something
 other than std::exception ended the server

---
 src/network/cgi/server.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/network/cgi/server.cpp b/src/network/cgi/server.cpp
index 4336db5..c61c2d0 100644
--- a/src/network/cgi/server.cpp
+++ b/src/network/cgi/server.cpp
@@ -277,7 +277,8 @@ void run_server::process(socket_type ssock,
       pfi::lang::shared_ptr<http::response> resp=gen_resp(sout);
       resp->send(sock);
     }
-    catch(exception&){
+    catch(...){
+      // whatever a program throws ends its own request only
     }
   }
 }
-- 
2.43.0


From 66c4ac9ff2a45978733b4c03ac985d7a329aabec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:40 +0000
Subject: [PATCH 62/90] fix: run_fcgi goes on serving after a request that ends
 with an exception

---
 src/network/cgi/fcgi.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/network/cgi/fcgi.cpp b/src/network/cgi/fcgi.cpp
index 4136a0e..cc01f5e 100644
--- a/src/network/cgi/fcgi.cpp
+++ b/src/network/cgi/fcgi.cpp
@@ -126,7 +126,11 @@ void run_fcgi::run()
     
     fcgxstream ins(in), outs(out), errs(err);
     
-    c.exec(ins, outs, errs, get_env(env));
+    // a request that ends with an exception must not end the service
+    try{
+      c.exec(ins, outs, errs, get_env(env));
+    } catch(...){
+    }
 
     FCGX_Finish();
   }
-- 
2.43.0


From ddc5e510e7ac03f1c1aa76abae4cbb50e3efccd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:28 +0000
Subject: [PATCH 63/90] fix: statements take ten arguments and fetch rows of
 eight to ten columns

---
 src/database/statement.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/database/statement.h b/src/database/statement.h
index 98a0a91..3b52f82 100644
--- a/src/database/statement.h
+++ b/src/database/statement.h
@@ -154,7 +154,7 @@ public:
 
   template <class T1, class T2, class T3, class T4, class T5, class T6, class T7, class T8, class T9, class T10>
   int execute(T1 a1, T2 a2, T3 a3, T4 a4, T5 a5, T6 a6, T7 a7, T8 a8, T9 a9, T10 a10){
-    std::vector<pfi::lang::shared_ptr<sql_value> > args(9);
+    std::vector<pfi::lang::shared_ptr<sql_value> > args(10);
     args[0]=to_sql(a1);
     args[1]=to_sql(a2);
     args[2]=to_sql(a3);
@@ -256,7 +256,7 @@ public:
   bool fetch_row(T1 &r1, T2 &r2, T3 &r3, T4 &r4, T5 &r5, T6 &r6, T7 &r7, T8 &r8){
     std::vector<pfi::lang::shared_ptr<sql_value> > ret;
     if (!fetch_row(ret)) return false;
-    if (ret.size()!=7) throw database_error("fetch_row: argument number mismatch");
+    if (ret.size()!=8) throw database_error("fetch_row: argument number mismatch");
     r1=from_sql<T1>(ret[0]);
     r2=from_sql<T2>(ret[1]);
     r3=from_sql<T3>(ret[2]);
@@ -272,7 +272,7 @@ public:
   bool fetch_row(T1 &r1, T2 &r2, T3 &r3, T4 &r4, T5 &r5, T6 &r6, T7 &r7, T8 &r8, T9 &r9){
     std::vector<pfi::lang::shared_ptr<sql_value> > ret;
     if (!fetch_row(ret)) return false;
-    if (ret.size()!=8) throw database_error("fetch_row: argument number mismatch");
+    if (ret.size()!=9) throw database_error("fetch_row: argument number mismatch");
     r1=from_sql<T1>(ret[0]);
     r2=from_sql<T2>(ret[1]);
     r3=from_sql<T3>(ret[2]);
@@ -281,7 +281,7 @@ public:
     r6=from_sql<T6>(ret[5]);
     r7=from_sql<T7>(ret[6]);
     r8=from_sql<T8>(ret[7]);
-    r9=from_sql<T8>(ret[8]);
+    r9=from_sql<T9>(ret[8]);
     return true;
   }
 
@@ -289,7 +289,7 @@ public:
   bool fetch_row(T1 &r1, T2 &r2, T3 &r3, T4 &r4, T5 &r5, T6 &r6, T7 &r7, T8 &r8, T9 &r9, T10 &r10){
     std::vector<pfi::lang::shared_ptr<sql_value> > ret;
     if (!fetch_row(ret)) return false;
-    if (ret.size()!=9) throw database_error("fetch_row: argument number mismatch");
+    if (ret.size()!=10) throw database_error("fetch_row: argument number mismatch");
     r1=from_sql<T1>(ret[0]);
     r2=from_sql<T2>(ret[1]);
     r3=from_sql<T3>(ret[2]);
-- 
2.43.0


From 82ad90584543d95900958017bc2fae567a68ca7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:28 +0000
Subject: [PATCH 64/90] fix: a NULL argument of a MySQL statement is bound as
 NULL

---
 src/database/mysql/value.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/database/mysql/value.cpp b/src/database/mysql/value.cpp
index e9ee10e..d482cd5 100644
--- a/src/database/mysql/value.cpp
+++ b/src/database/mysql/value.cpp
@@ -122,7 +122,7 @@ size_t bind_length(const pfi::lang::shared_ptr<sql_value>& p)
 void to_bind(const pfi::lang::shared_ptr<sql_value>& p, MYSQL_BIND &bind)
 {
   if (!p){
-    bind.is_null=NULL;
+    bind.buffer_type=MYSQL_TYPE_NULL;
     return;
   }
 
-- 
2.43.0


From f24773950126d3c0f11e1e4dd779d1e3f1dcca6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:28 +0000
Subject: [PATCH 65/90] fix: MySQL statements without arguments and with empty
 strings index no empty buffers

---
 src/database/mysql/statement.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/database/mysql/statement.cpp b/src/database/mysql/statement.cpp
index 28d90c0..49d8c1e 100644
--- a/src/database/mysql/statement.cpp
+++ b/src/database/mysql/statement.cpp
@@ -115,14 +115,14 @@ int mysql_statement::execute(const vector<pfi::lang::shared_ptr<sql_value> > &ar
   for (size_t i=0;i<args.size();i++){
     memset(&bind[i], 0, sizeof(MYSQL_BIND));
     ibufs[i].resize(bind_length(args[i]));
-    bind[i].buffer=&ibufs[i][0];
+    bind[i].buffer=ibufs[i].empty() ? NULL : &ibufs[i][0];
     bind[i].buffer_length=ibufs[i].size();
     bind[i].is_null=&falses[i];
     bind[i].length=&lns[i];
     to_bind(args[i], bind[i]);
   }
 
-  my_bool rb=mysql_stmt_bind_param(stmt, &bind[0]);
+  my_bool rb=bind.empty() ? 0 : mysql_stmt_bind_param(stmt, &bind[0]);
   if (rb!=0){
     throw database_error(string("cannot bind parameter: ")+
                          mysql_stmt_error(stmt));
-- 
2.43.0


From 61c566ab0031eee32b4b130fa7d9df1fb21768e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:28 +0000
Subject: [PATCH 66/90] fix: PostgreSQL statements without arguments index no
 empty vector

---
 src/database/postgresql/statement.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/database/postgresql/statement.cpp b/src/database/postgresql/statement.cpp
index cd61c8d..6c00eb6 100644
--- a/src/database/postgresql/statement.cpp
+++ b/src/database/postgresql/statement.cpp
@@ -91,7 +91,10 @@ int postgresql_statement::execute(const vector<pfi::lang::shared_ptr<sql_value>
     }
   }
 
-  PGresult *r=PQexecPrepared(conn->get(), "", n, &params[0], &param_lens[0], NULL, 0);
+  PGresult *r=PQexecPrepared(conn->get(), "", n,
+                             n==0 ? NULL : &params[0],
+                             n==0 ? NULL : &param_lens[0],
+                             NULL, 0);
   if (r==NULL)
     throw database_error("PQexecPrepared failed");
 
-- 
2.43.0


From 5dee1d1266c2f8b2af894990ab64fdb73d25437d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:07 +0000
Subject: [PATCH 67/90] fix: MySQL buffers of empty strings and of statements
 without rows are not indexed

---
 src/database/mysql/statement.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/database/mysql/statement.cpp b/src/database/mysql/statement.cpp
index 49d8c1e..9585121 100644
--- a/src/database/mysql/statement.cpp
+++ b/src/database/mysql/statement.cpp
@@ -31,6 +31,7 @@
 
 #include "statement.h"
 
+#include <algorithm>
 #include <sstream>
 #include <memory.h>
 
@@ -114,8 +115,8 @@ int mysql_statement::execute(const vector<pfi::lang::shared_ptr<sql_value> > &ar
 
   for (size_t i=0;i<args.size();i++){
     memset(&bind[i], 0, sizeof(MYSQL_BIND));
-    ibufs[i].resize(bind_length(args[i]));
-    bind[i].buffer=ibufs[i].empty() ? NULL : &ibufs[i][0];
+    ibufs[i].resize(max<size_t>(bind_length(args[i]), 1));
+    bind[i].buffer=&ibufs[i][0];
     bind[i].buffer_length=ibufs[i].size();
     bind[i].is_null=&falses[i];
     bind[i].length=&lns[i];
@@ -169,7 +170,8 @@ bool mysql_statement::fetch_row(vector<pfi::lang::shared_ptr<sql_value> > &row)
       binds[i].is_null=&nulls[i];
     }
 
-    mysql_stmt_bind_result(stmt, &binds[0]);
+    if (fn>0)
+      mysql_stmt_bind_result(stmt, &binds[0]);
   }
 
   int rc=mysql_stmt_fetch(stmt);
-- 
2.43.0


From 19b149ab0271379f089b3ac5733e158df9e07f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:07 +0000
Subject: [PATCH 68/90] fix: VARCHAR columns of MySQL can be fetched

---
 src/database/mysql/value.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/database/mysql/value.cpp b/src/database/mysql/value.cpp
index d482cd5..410914f 100644
--- a/src/database/mysql/value.cpp
+++ b/src/database/mysql/value.cpp
@@ -75,6 +75,7 @@ static sql_value *from_bind_p(MYSQL_BIND &bind)
   }
 
   case MYSQL_TYPE_STRING:
+  case MYSQL_TYPE_VAR_STRING:
   case MYSQL_TYPE_BLOB:{
     char *p=(char*)bind.buffer;
     return new sql_string(string(p, p+*bind.length));
-- 
2.43.0


From 7f56f3c6775eb050650c941ff637ac37b6a00eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:07 +0000
Subject: [PATCH 69/90] fix: unsigned columns of MySQL are fetched as unsigned
 numbers

---
 src/database/mysql/statement.cpp | 1 +
 src/database/mysql/value.cpp     | 5 +++++
 2 files changed, 6 insertions(+)

diff --git a/src/database/mysql/statement.cpp b/src/database/mysql/statement.cpp
index 9585121..995958b 100644
--- a/src/database/mysql/statement.cpp
+++ b/src/database/mysql/statement.cpp
@@ -164,6 +164,7 @@ bool mysql_statement::fetch_row(vector<pfi::lang::shared_ptr<sql_value> > &row)
       lens[i]=0;
 
       binds[i].buffer_type=flds[i].type;
+      binds[i].is_unsigned=(flds[i].flags&UNSIGNED_FLAG)!=0;
       binds[i].buffer=&bufs[i][0];
       binds[i].buffer_length=bufs[i].size();
       binds[i].length=&lens[i];
diff --git a/src/database/mysql/value.cpp b/src/database/mysql/value.cpp
index 410914f..4430075 100644
--- a/src/database/mysql/value.cpp
+++ b/src/database/mysql/value.cpp
@@ -48,15 +48,20 @@ static sql_value *from_bind_p(MYSQL_BIND &bind)
 
   switch(bind.buffer_type){
   case MYSQL_TYPE_TINY:
+    if (bind.is_unsigned) return new sql_int32(*(unsigned char*)bind.buffer);
     return new sql_int32(*(signed char*)bind.buffer);
 
   case MYSQL_TYPE_SHORT:
+    if (bind.is_unsigned) return new sql_int32(*(unsigned short*)bind.buffer);
     return new sql_int32(*(short*)bind.buffer);
 
   case MYSQL_TYPE_LONG:
+    if (bind.is_unsigned) return new sql_int64(*(unsigned int*)bind.buffer);
     return new sql_int32(*(int*)bind.buffer);
 
   case MYSQL_TYPE_LONGLONG:
+    if (bind.is_unsigned && *(long long*)bind.buffer<0)
+      throw database_error("unsigned value is too large");
     return new sql_int64(*(long long*)bind.buffer);
 
   case MYSQL_TYPE_FLOAT:
-- 
2.43.0


From 82593c97d691a909fbe0a1a26982c0ea4acf0f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:07 +0000
Subject: [PATCH 70/90] fix: mysql prepare reconnects when the last
 reconnection failed

---
 src/database/mysql/connection.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/database/mysql/connection.cpp b/src/database/mysql/connection.cpp
index ecdb188..d1164ad 100644
--- a/src/database/mysql/connection.cpp
+++ b/src/database/mysql/connection.cpp
@@ -164,6 +164,8 @@ int mysql_connection::run(const string &sql,
 
 statement *mysql_connection::prepare(const string &sql)
 {
+  if (conn->get() == NULL) reconnect();
+
   try {
     return new mysql_statement(conn, sql);
   }
-- 
2.43.0


From 0bce5c6c3361b6aab56b52ea91ab178a39001fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:07 +0000
Subject: [PATCH 71/90] fix: a MySQL statement without field metadata is closed

---
 src/database/mysql/statement.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/database/mysql/statement.cpp b/src/database/mysql/statement.cpp
index 995958b..675ad23 100644
--- a/src/database/mysql/statement.cpp
+++ b/src/database/mysql/statement.cpp
@@ -80,6 +80,7 @@ mysql_statement::mysql_statement(pfi::lang::shared_ptr<mysql_connection_impl> &c
     MYSQL_FIELD *fld=mysql_fetch_fields(meta);
     if (fld==NULL){
       mysql_free_result(meta);
+      mysql_stmt_close(stmt);
       throw database_error("cannot fetch field metadata");
     }
     
-- 
2.43.0


From 5f832d34bdbf850f453ea02cca5e561473e3ed0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:07 +0000
Subject: [PATCH 72/90] fix: a MySQL transaction that cannot begin or commit is
 reported

---
 src/database/mysql/connection.cpp | 11 +++++++++--
 src/database/util.h               | 14 ++++++++++++--
 2 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/database/mysql/connection.cpp b/src/database/mysql/connection.cpp
index d1164ad..3742ac7 100644
--- a/src/database/mysql/connection.cpp
+++ b/src/database/mysql/connection.cpp
@@ -109,12 +109,19 @@ mysql_connection::~mysql_connection()
 
 void mysql_connection::begin_transaction()
 {
-  (void)query("BEGIN");
+  if (query("BEGIN") != 0)
+    throw database_error(string("cannot begin transaction: ")+
+                         mysql_error(conn->get()));
 }
 
 void mysql_connection::commit()
 {
-  (void)query("COMMIT");
+  // a new connection knows nothing of the transaction: do not reconnect
+  if (conn->get() == NULL)
+    throw connection_error("cannot commit: not connected");
+  if (mysql_query(conn->get(), "COMMIT") != 0)
+    throw database_error(string("cannot commit: ")+
+                         mysql_error(conn->get()));
 }
 
 void mysql_connection::rollback()
diff --git a/src/database/util.h b/src/database/util.h
index 2650632..f375257 100644
--- a/src/database/util.h
+++ b/src/database/util.h
@@ -57,8 +57,18 @@ public:
     conn->begin_transaction();
   }
 
-  ~committer(){
-    if (std::uncaught_exception()) conn->rollback();
+  ~committer()
+#if __cplusplus >= 201103L
+    noexcept(false)
+#endif
+  {
+    if (std::uncaught_exception()){
+      try{
+        conn->rollback();
+      } catch(...){
+        // another exception is on its way
+      }
+    }
     else conn->commit();
   }
 
-- 
2.43.0


From 655b5e9b3bdcc54219d77ee2f32ddc4da1392076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:07 +0000
Subject: [PATCH 73/90] fix: a PostgreSQL connection that is lost can be
 destroyed

---
 src/database/postgresql/connection.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/database/postgresql/connection.cpp b/src/database/postgresql/connection.cpp
index 21e4b02..b3a54c2 100644
--- a/src/database/postgresql/connection.cpp
+++ b/src/database/postgresql/connection.cpp
@@ -90,7 +90,10 @@ postgresql_connection::postgresql_connection(const string &conninfo)
 
 postgresql_connection::~postgresql_connection()
 {
-  (void)connection::run("ROLLBACK");
+  try{
+    (void)connection::run("ROLLBACK");
+  }catch(...){
+  }
 }
 
 void postgresql_connection::begin_transaction()
-- 
2.43.0


From 1ed75ec070a91bce1dd8457b3413d3aec3f5f0d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:07 +0000
Subject: [PATCH 74/90] fix: PostgreSQL columns of other types print nothing on
 standard output

---
 src/database/postgresql/value.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/database/postgresql/value.cpp b/src/database/postgresql/value.cpp
index 3afbcaa..2a97848 100644
--- a/src/database/postgresql/value.cpp
+++ b/src/database/postgresql/value.cpp
@@ -70,7 +70,6 @@ sql_type oid_to_sql_type(Oid oid)
   case PG_TYPE_TIMESTAMP:
     return SQL_TIMESTAMP;
   }
-  cout<<oid<<endl;
   return SQL_UNKNOWN;
 }
 
-- 
2.43.0


From 01a30cd717cf1c016655c44b1e45a7fdb2976c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:07 +0000
Subject: [PATCH 75/90] fix: floats go to and from PostgreSQL without loss

---
 src/database/postgresql/value.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/database/postgresql/value.cpp b/src/database/postgresql/value.cpp
index 2a97848..de968d2 100644
--- a/src/database/postgresql/value.cpp
+++ b/src/database/postgresql/value.cpp
@@ -99,7 +99,7 @@ sql_value *make_sql_value(char *p, int len, sql_type t)
     return new sql_int64(lexical_cast<int64_t>(p));
 
   case SQL_FLOAT:
-    return new sql_float(lexical_cast<double>(p));
+    return new sql_float(strtod(p, NULL));
 
   case SQL_TIMESTAMP: {
     tm t;
@@ -143,7 +143,7 @@ pfi::lang::shared_ptr<string> sql_to_str(const pfi::lang::shared_ptr<sql_value>&
   }
   case SQL_FLOAT:{
     ostringstream oss;
-    oss<<setiosflags(ios::fixed)<<setprecision(10)<<dynamic_cast<sql_float*>(p.get())->get();
+    oss<<setprecision(17)<<dynamic_cast<sql_float*>(p.get())->get();
     return pfi::lang::shared_ptr<string>(new string(oss.str()));
   }
   case SQL_TIMESTAMP:{
-- 
2.43.0


From 8e29e2ca420792f3dcfc6d0454e3c4d88ca46e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:07 +0000
Subject: [PATCH 76/90] fix: PostgreSQL timestamps with whole and short
 fractions of seconds are read

---
 src/database/postgresql/value.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/database/postgresql/value.cpp b/src/database/postgresql/value.cpp
index de968d2..e085886 100644
--- a/src/database/postgresql/value.cpp
+++ b/src/database/postgresql/value.cpp
@@ -102,9 +102,17 @@ sql_value *make_sql_value(char *p, int len, sql_type t)
     return new sql_float(strtod(p, NULL));
 
   case SQL_TIMESTAMP: {
-    tm t;
-    char *q=strptime(p, "%Y-%m-%d %T.", &t);
-    int usec=atoi(q);
+    tm t={};
+    char *q=strptime(p, "%Y-%m-%d %T", &t);
+    if (!q || (*q!='\0' && *q!='.'))
+      throw database_error(string("unsupported timestamp: ")+p);
+    int usec=0;
+    if (*q=='.'){
+      // a fraction of a second, of up to six digits
+      int unit=100000;
+      for (q++; *q>='0' && *q<='9'; q++, unit/=10)
+        usec+=(*q-'0')*unit;
+    }
     calendar_time ct(t.tm_year+1900, t.tm_mon+1, t.tm_mday,
                      t.tm_hour, t.tm_min, t.tm_sec, usec);
     return new sql_timestamp(clock_time(ct));
-- 
2.43.0


From 0745f03ac4f594413dbedc044dad8fbeb7b40dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:39 +0000
Subject: [PATCH 77/90] fix: question marks within quotes are no parameters of
 PostgreSQL statements

---
 src/database/postgresql/statement.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/database/postgresql/statement.cpp b/src/database/postgresql/statement.cpp
index 6c00eb6..06643d4 100644
--- a/src/database/postgresql/statement.cpp
+++ b/src/database/postgresql/statement.cpp
@@ -49,9 +49,16 @@ static string convert_query(const string &q)
   ostringstream oss;
 
   int cnt=1;
+  char quote='\0';
 
   for (int i=0;i<(int)q.length();i++){
-    if (q[i]=='?') oss<<'$'<<(cnt++);
+    // a '?' in a literal or in a quoted name is no parameter
+    if (quote){
+      if (q[i]==quote) quote='\0';
+    }
+    else if (q[i]=='\'' || q[i]=='"') quote=q[i];
+
+    if (q[i]=='?' && !quote) oss<<'$'<<(cnt++);
     else oss<<q[i];
   }
 
-- 
2.43.0


From 5e7c7cbec409bcaa0fe18621a7a616d579c9c5ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:39 +0000
Subject: [PATCH 78/90] fix: PostgreSQL connection parameters may hold spaces
 and quotes

---
 src/database/postgresql/connection.cpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/database/postgresql/connection.cpp b/src/database/postgresql/connection.cpp
index b3a54c2..5024269 100644
--- a/src/database/postgresql/connection.cpp
+++ b/src/database/postgresql/connection.cpp
@@ -127,6 +127,17 @@ connection *connect(const string &conninfo)
   return new postgresql_connection(conninfo);
 }
 
+// a value in a connection string
+static string quote(const string &s)
+{
+  string ret("'");
+  for (size_t i=0; i<s.length(); i++){
+    if (s[i]=='\'' || s[i]=='\\') ret+='\\';
+    ret+=s[i];
+  }
+  return ret+"'";
+}
+
 connection *connect(const string &host,
                     uint16_t port,
                     const string &dbname,
@@ -134,11 +145,11 @@ connection *connect(const string &host,
                     const string &password)
 {
   ostringstream oss;
-  oss<<"host="<<host<<" "
+  oss<<"host="<<quote(host)<<" "
      <<"port="<<port<<" "
-     <<"dbname="<<dbname<<" "
-     <<"user="<<user<<" "
-     <<"password="<<password;
+     <<"dbname="<<quote(dbname)<<" "
+     <<"user="<<quote(user)<<" "
+     <<"password="<<quote(password);
   return connect(oss.str());
 }
 
-- 
2.43.0


From 8571161d4eb53865ab8f057ae70a8ee46d8b51b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:39 +0000
Subject: [PATCH 79/90] fix: a column that is no string is not fetched as an
 empty string

---
 src/database/type.h | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/database/type.h b/src/database/type.h
index 0f24e68..be2d9ae 100644
--- a/src/database/type.h
+++ b/src/database/type.h
@@ -181,9 +181,18 @@ inline bool from_sql(const pfi::lang::shared_ptr<sql_value>& v)
 template <>
 inline std::string from_sql(const pfi::lang::shared_ptr<sql_value>& v)
 {
-  sql_string *p=dynamic_cast<sql_string*>(v.get());
-  if (!p) return "";
-  return p->get();
+  if (!v) return "";
+  {
+    sql_string *p=dynamic_cast<sql_string*>(v.get());
+    if (p) return p->get();
+  }
+
+  {
+    sql_unknown *p=dynamic_cast<sql_unknown*>(v.get());
+    if (p) return p->get();
+  }
+
+  throw database_error("from_sql: cannot convert to string");
 }
 
 template <>
-- 
2.43.0


From ad4e223985509b91718e8a453fd8f420ed8c9377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:39 +0000
Subject: [PATCH 80/90] fix: a PostgreSQL statement executes its own query when
 another was prepared after it

---
 src/database/postgresql/connection.cpp   |  3 ++-
 src/database/postgresql/connection_def.h |  3 +++
 src/database/postgresql/statement.cpp    | 25 +++++++++++++++++++-----
 src/database/postgresql/statement.h      |  3 +++
 4 files changed, 28 insertions(+), 6 deletions(-)

diff --git a/src/database/postgresql/connection.cpp b/src/database/postgresql/connection.cpp
index 5024269..5fbbe3c 100644
--- a/src/database/postgresql/connection.cpp
+++ b/src/database/postgresql/connection.cpp
@@ -48,7 +48,7 @@ namespace database{
 namespace postgresql{
 
 postgresql_connection_impl::postgresql_connection_impl(const string &conninfo)
-  :conn(NULL)
+  :prepared(NULL), conn(NULL)
 {
   if (PQisthreadsafe()!=1)
     throw database_error("PostgreSQL is not threadsafe");
@@ -77,6 +77,7 @@ void postgresql_connection_impl::reconnect()
   if (PQstatus(conn)==CONNECTION_OK)
     return;
 
+  prepared=NULL;
   PQreset(conn);
 
   if (PQstatus(conn)!=CONNECTION_OK)
diff --git a/src/database/postgresql/connection_def.h b/src/database/postgresql/connection_def.h
index 42fd450..b005185 100644
--- a/src/database/postgresql/connection_def.h
+++ b/src/database/postgresql/connection_def.h
@@ -48,6 +48,9 @@ public:
 
   PGconn *get(){ reconnect(); return conn; }
 
+  // the statement that was prepared last: there is one unnamed statement in a session
+  const void *prepared;
+
 private:
   PGconn *conn;
 };
diff --git a/src/database/postgresql/statement.cpp b/src/database/postgresql/statement.cpp
index 06643d4..6b70d06 100644
--- a/src/database/postgresql/statement.cpp
+++ b/src/database/postgresql/statement.cpp
@@ -68,17 +68,27 @@ static string convert_query(const string &q)
 postgresql_statement::postgresql_statement(const pfi::lang::shared_ptr<postgresql_connection_impl>& conn,
                                            const string &query)
   : conn(conn)
+  , query(convert_query(query))
 {
-  postgresql_result res(PQprepare(conn->get(), "", convert_query(query).c_str(), 0, NULL));
-
-  if (!res.command_ok())
-    throw database_error(PQresultErrorMessage(res.get()));
+  prepare();
 }
 
 postgresql_statement::~postgresql_statement()
 {
 }
 
+void postgresql_statement::prepare()
+{
+  conn->prepared=NULL;
+
+  postgresql_result res(PQprepare(conn->get(), "", query.c_str(), 0, NULL));
+
+  if (!res.command_ok())
+    throw database_error(PQresultErrorMessage(res.get()));
+
+  conn->prepared=this;
+}
+
 int postgresql_statement::execute(const vector<pfi::lang::shared_ptr<sql_value> > &args)
 {
   int n=args.size();
@@ -98,7 +108,12 @@ int postgresql_statement::execute(const vector<pfi::lang::shared_ptr<sql_value>
     }
   }
 
-  PGresult *r=PQexecPrepared(conn->get(), "", n,
+  // another statement may have been prepared since, or the session be a new one
+  PGconn *c=conn->get();
+  if (conn->prepared!=this)
+    prepare();
+
+  PGresult *r=PQexecPrepared(c, "", n,
                              n==0 ? NULL : &params[0],
                              n==0 ? NULL : &param_lens[0],
                              NULL, 0);
diff --git a/src/database/postgresql/statement.h b/src/database/postgresql/statement.h
index 5755ccf..bb54245 100644
--- a/src/database/postgresql/statement.h
+++ b/src/database/postgresql/statement.h
@@ -55,7 +55,10 @@ public:
   bool fetch_row(std::vector<pfi::lang::shared_ptr<sql_value> > &row);
 
 private:
+  void prepare();
+
   pfi::lang::shared_ptr<postgresql_connection_impl> conn;
+  std::string query;
   pfi::lang::shared_ptr<postgresql_result> res;
 };
 
-- 
2.43.0


From d7894ec8b1887d9dd6ddb871f87c29026994d49f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:46 +0000
Subject: [PATCH 81/90] fix: the rest of a transaction is not run on a new
 connection when its own is lost

---
 src/database/mysql/connection.cpp        | 11 ++++++++++-
 src/database/mysql/connection_def.h      |  1 +
 src/database/postgresql/connection.cpp   | 14 ++++++++++++--
 src/database/postgresql/connection_def.h |  2 ++
 4 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/src/database/mysql/connection.cpp b/src/database/mysql/connection.cpp
index 3742ac7..1192348 100644
--- a/src/database/mysql/connection.cpp
+++ b/src/database/mysql/connection.cpp
@@ -96,13 +96,14 @@ mysql_connection::mysql_connection(const string &host,
                                    const string &db,
                                    uint16_t port)
   :conn(new mysql_connection_impl(host, user, passwd, db, port))
+  ,in_transaction(false)
 {
 }
 
 mysql_connection::~mysql_connection()
 {
   try{
-    (void)query("ROLLBACK");
+    rollback();
   }catch(...){
   }
 }
@@ -112,10 +113,13 @@ void mysql_connection::begin_transaction()
   if (query("BEGIN") != 0)
     throw database_error(string("cannot begin transaction: ")+
                          mysql_error(conn->get()));
+  in_transaction=true;
 }
 
 void mysql_connection::commit()
 {
+  in_transaction=false;
+
   // a new connection knows nothing of the transaction: do not reconnect
   if (conn->get() == NULL)
     throw connection_error("cannot commit: not connected");
@@ -126,6 +130,7 @@ void mysql_connection::commit()
 
 void mysql_connection::rollback()
 {
+  in_transaction=false;
   (void)query("ROLLBACK");
 }
 
@@ -148,6 +153,10 @@ int mysql_connection::query(const string &sql)
 
 void mysql_connection::reconnect()
 {
+  // the rest of a transaction must not be run outside of it
+  if (in_transaction)
+    throw connection_error("connection was lost in a transaction");
+
   conn->reconnect();
 }
 
diff --git a/src/database/mysql/connection_def.h b/src/database/mysql/connection_def.h
index 7799fe4..f400a04 100644
--- a/src/database/mysql/connection_def.h
+++ b/src/database/mysql/connection_def.h
@@ -84,6 +84,7 @@ private:
   void reconnect();
 
   pfi::lang::shared_ptr<mysql_connection_impl> conn;
+  bool in_transaction;
 };
 
 } // mysql
diff --git a/src/database/postgresql/connection.cpp b/src/database/postgresql/connection.cpp
index 5fbbe3c..43b32f0 100644
--- a/src/database/postgresql/connection.cpp
+++ b/src/database/postgresql/connection.cpp
@@ -48,7 +48,7 @@ namespace database{
 namespace postgresql{
 
 postgresql_connection_impl::postgresql_connection_impl(const string &conninfo)
-  :prepared(NULL), conn(NULL)
+  :prepared(NULL), in_transaction(false), conn(NULL)
 {
   if (PQisthreadsafe()!=1)
     throw database_error("PostgreSQL is not threadsafe");
@@ -77,6 +77,10 @@ void postgresql_connection_impl::reconnect()
   if (PQstatus(conn)==CONNECTION_OK)
     return;
 
+  // the rest of a transaction must not be run outside of it
+  if (in_transaction)
+    throw connection_error("connection was lost in a transaction");
+
   prepared=NULL;
   PQreset(conn);
 
@@ -92,7 +96,7 @@ postgresql_connection::postgresql_connection(const string &conninfo)
 postgresql_connection::~postgresql_connection()
 {
   try{
-    (void)connection::run("ROLLBACK");
+    rollback();
   }catch(...){
   }
 }
@@ -100,15 +104,21 @@ postgresql_connection::~postgresql_connection()
 void postgresql_connection::begin_transaction()
 {
   (void)connection::run("BEGIN");
+  conn->in_transaction=true;
 }
 
 void postgresql_connection::commit()
 {
+  bool lost=conn->lost();
+  conn->in_transaction=false;
+  if (lost)
+    throw connection_error("cannot commit: connection was lost");
   (void)connection::run("COMMIT");
 }
 
 void postgresql_connection::rollback()
 {
+  conn->in_transaction=false;
   (void)connection::run("ROLLBACK");
 }
 
diff --git a/src/database/postgresql/connection_def.h b/src/database/postgresql/connection_def.h
index b005185..629d66f 100644
--- a/src/database/postgresql/connection_def.h
+++ b/src/database/postgresql/connection_def.h
@@ -45,11 +45,13 @@ public:
   ~postgresql_connection_impl();
 
   void reconnect();
+  bool lost() const { return PQstatus(conn)!=CONNECTION_OK; }
 
   PGconn *get(){ reconnect(); return conn; }
 
   // the statement that was prepared last: there is one unnamed statement in a session
   const void *prepared;
+  bool in_transaction;
 
 private:
   PGconn *conn;
-- 
2.43.0


From 5fe3e4cd00931a5c49ab2b443d91a65fad832c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:40 +0000
Subject: [PATCH 82/90] fix: to_json: refuse an unsigned integer that does not
 fit instead of storing a negative one

---
 src/text/json/cast.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/text/json/cast.h b/src/text/json/cast.h
index 4bb15d5..b76777c 100644
--- a/src/text/json/cast.h
+++ b/src/text/json/cast.h
@@ -226,6 +226,8 @@ inline void serialize(json& js, long long& n)
 template <>
 inline void serialize(json& js, unsigned long long& n)
 {
+  if (n > static_cast<unsigned long long>(LLONG_MAX))
+    throw json_bad_cast<unsigned long long>("the value does not fit in json_integer.");
   js = json(new json_integer(n));
 }
 
@@ -238,6 +240,8 @@ inline void serialize(json& js, long& n)
 template <>
 inline void serialize(json& js, unsigned long& n)
 {
+  if (n > static_cast<unsigned long long>(LLONG_MAX))
+    throw json_bad_cast<unsigned long>("the value does not fit in json_integer.");
   js = json(new json_integer(n));
 }
 
-- 
2.43.0


From db8e06805b9a4c83b658f5fef9c164bb07ef2578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:41 +0000
Subject: [PATCH 83/90] fix: http: refuse start, chunk size and trailer lines
 that reach the line limit

---
 src/network/http/base.cpp | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/network/http/base.cpp b/src/network/http/base.cpp
index 0e09b65..2a76ca5 100644
--- a/src/network/http/base.cpp
+++ b/src/network/http/base.cpp
@@ -120,12 +120,13 @@ void header::read_header(pfi::lang::function<bool (string*)> f)
   }
 }
 
+// a line cut at the limit would leave its rest to be read as something else
 static bool socket_getline(stream_socket* sock, string* str, int line_limit)
 {
   if (!sock->getline(*str, line_limit))
     return false;
   if ((int)str->length() >= line_limit)
-    throw http_exception("header line is too long");
+    throw http_exception("line is too long");
   return true;
 }
 
@@ -285,7 +286,7 @@ private:
       // skip trailer
       if (sock) {
         for (string line;
-             sock->getline(line,line_limit) && line.length()>0;);
+             read_line(&line) && line.length()>0;);
       }
       shutdown();
       return;
@@ -315,11 +316,20 @@ private:
     }
   }
 
+  bool read_line(string* line) {
+    try {
+      return socket_getline(sock.get(), line, line_limit);
+    } catch (...) {
+      shutdown();
+      throw;
+    }
+  }
+
   void read_chunk_size() {
     if (!sock) return;
 
     string line;
-    if (!sock->getline(line, line_limit)) {
+    if (!read_line(&line)) {
       shutdown();
       return;
     }
@@ -430,7 +440,7 @@ request::request(const pfi::lang::shared_ptr<stream_socket>& sock)
   // Request-Line
   {
     string head;
-    sock->getline(head, line_limit);
+    socket_getline(sock.get(), &head, line_limit);
   
     istringstream iss(head);
     string uri_s;
@@ -536,7 +546,7 @@ response::response(const pfi::lang::shared_ptr<stream_socket>& sock)
   // status-line
   {
     string line;
-    if (!sock->getline(line, line_limit))
+    if (!socket_getline(sock.get(), &line, line_limit))
       throw http_exception("cannot read status-line: " + line);
     
     istringstream iss(line);
-- 
2.43.0


From fad3034fdd030a18090a6d9e02a3c684d0b018a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:12 +0000
Subject: [PATCH 84/90] fix: aho_corasick finds words that contain a zero byte

---
 src/data/string/aho_corasick.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/data/string/aho_corasick.cpp b/src/data/string/aho_corasick.cpp
index 6393108..6b3ac62 100644
--- a/src/data/string/aho_corasick.cpp
+++ b/src/data/string/aho_corasick.cpp
@@ -78,9 +78,13 @@ void aho_corasick::construct(const vector<pair<std::string, int> > &words)
     
     if ((int)words[ix].first.length()==dep)
       nodes[pos].output=words[ix].second;
+    while (n>0 && (int)words[ix].first.length()==dep) {
+      ix++;
+      n--;
+    }
     
     for (int i=0;i<n;i++){
-      int c=dep<(int)words[ix+i].first.length()?(unsigned char)words[ix+i].first[dep]:0;
+      int c=(unsigned char)words[ix+i].first[dep];
       if (tbl[c]++==0)
         children[children_num++]=c;
     }
@@ -88,7 +92,7 @@ void aho_corasick::construct(const vector<pair<std::string, int> > &words)
     int base=max(1, bef_base-32);
     for (;;base++){
       bool ok=true;
-      for (int ci=children[0]==0?1:0;ci<children_num;ci++){
+      for (int ci=0;ci<children_num;ci++){
         int i=children[ci];
         if (nodes[base+i].check>=0){
           ok=false;
@@ -101,9 +105,9 @@ void aho_corasick::construct(const vector<pair<std::string, int> > &words)
     nodes[pos].base=base;
     for (int cur=0, ci=0;ci<children_num;ci++){
       int i=children[ci];
-      if (i>0 && tbl[i]>0){
+      if (tbl[i]>0){
         int nix=nodes[pos].base+i;
-        if (nix+256>=(int)nodes.size()) nodes.resize(nix+256);
+        if (nix+257>=(int)nodes.size()) nodes.resize(nix+257);
         nodes[nix].check=pos;
         ss.push(make_pair(make_pair(nix, dep+1), make_pair(ix+cur, tbl[i])));
       }
-- 
2.43.0


From 3ab0709a876d6b688cfbf849b2016d267e498818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:12 +0000
Subject: [PATCH 85/90] fix: lru::set takes arguments that refer to an entry it
 evicts

---
 src/data/lru.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/data/lru.h b/src/data/lru.h
index 6a95be1..90720fb 100644
--- a/src/data/lru.h
+++ b/src/data/lru.h
@@ -71,6 +71,10 @@ public:
   void set(const K &key, const V &val){
     if (cache.count(key)>0) return;
 
+    // the arguments may refer to an entry that is evicted below
+    const K new_key(key);
+    const V new_val(val);
+
     while((int)cache.size()>=max_size){
       assert(access_time.size()==cache.size());
       const K &del_key=access_time.begin()->second;
@@ -79,8 +83,8 @@ public:
     }
 
     uint64_t cnt=cur++;
-    access_time.insert(std::make_pair(cnt, key));
-    cache[key]=std::make_pair(val, cnt);
+    access_time.insert(std::make_pair(cnt, new_key));
+    cache[new_key]=std::make_pair(new_val, cnt);
   }
 
   void touch(const K &key){
-- 
2.43.0


From 9fa20084d1b3e1a0485234aa231f26e0570a062e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:12 +0000
Subject: [PATCH 86/90] fix: mprpc arguments missing from a call are not
 indeterminate

---
 src/network/mprpc/argument.h | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/network/mprpc/argument.h b/src/network/mprpc/argument.h
index 4fe467c..86bbc11 100644
--- a/src/network/mprpc/argument.h
+++ b/src/network/mprpc/argument.h
@@ -69,7 +69,7 @@ struct argument1 {
     if(sz <= 0) { return; } o.via.array.ptr[0].convert(&a1);
   }
 
-  argument1() { }
+  argument1() : a1() { }
 
   argument1(A1 _a1) : a1(_a1) { }
 
@@ -94,7 +94,7 @@ struct argument2 {
     if(sz <= 1) { return; } o.via.array.ptr[1].convert(&a2);
   }
 
-  argument2() { }
+  argument2() : a1(), a2() { }
 
   argument2(A1 _a1, A2 _a2) : a1(_a1), a2(_a2) { }
 
@@ -122,7 +122,7 @@ struct argument3 {
     if(sz <= 2) { return; } o.via.array.ptr[2].convert(&a3);
   }
 
-  argument3() { }
+  argument3() : a1(), a2(), a3() { }
 
   argument3(A1 _a1, A2 _a2, A3 _a3) : a1(_a1), a2(_a2), a3(_a3) { }
 
@@ -153,7 +153,7 @@ struct argument4 {
     if(sz <= 3) { return; } o.via.array.ptr[3].convert(&a4);
   }
 
-  argument4() { }
+  argument4() : a1(), a2(), a3(), a4() { }
 
   argument4(A1 _a1, A2 _a2, A3 _a3, A4 _a4) : a1(_a1), a2(_a2), a3(_a3), a4(_a4) { }
 
@@ -187,7 +187,7 @@ struct argument5 {
     if(sz <= 4) { return; } o.via.array.ptr[4].convert(&a5);
   }
 
-  argument5() { }
+  argument5() : a1(), a2(), a3(), a4(), a5() { }
 
   argument5(A1 _a1, A2 _a2, A3 _a3, A4 _a4, A5 _a5) : a1(_a1), a2(_a2), a3(_a3), a4(_a4), a5(_a5) { }
 
@@ -224,7 +224,7 @@ struct argument6 {
     if(sz <= 5) { return; } o.via.array.ptr[5].convert(&a6);
   }
 
-  argument6() { }
+  argument6() : a1(), a2(), a3(), a4(), a5(), a6() { }
 
   argument6(A1 _a1, A2 _a2, A3 _a3, A4 _a4, A5 _a5, A6 _a6) : a1(_a1), a2(_a2), a3(_a3), a4(_a4), a5(_a5), a6(_a6) { }
 
@@ -264,7 +264,7 @@ struct argument7 {
     if(sz <= 6) { return; } o.via.array.ptr[6].convert(&a7);
   }
 
-  argument7() { }
+  argument7() : a1(), a2(), a3(), a4(), a5(), a6(), a7() { }
 
   argument7(A1 _a1, A2 _a2, A3 _a3, A4 _a4, A5 _a5, A6 _a6, A7 _a7) : a1(_a1), a2(_a2), a3(_a3), a4(_a4), a5(_a5), a6(_a6), a7(_a7) { }
 
@@ -307,7 +307,7 @@ struct argument8 {
     if(sz <= 7) { return; } o.via.array.ptr[7].convert(&a8);
   }
 
-  argument8() { }
+  argument8() : a1(), a2(), a3(), a4(), a5(), a6(), a7(), a8() { }
 
   argument8(A1 _a1, A2 _a2, A3 _a3, A4 _a4, A5 _a5, A6 _a6, A7 _a7, A8 _a8) : a1(_a1), a2(_a2), a3(_a3), a4(_a4), a5(_a5), a6(_a6), a7(_a7), a8(_a8) { }
 
@@ -353,7 +353,7 @@ struct argument9 {
     if(sz <= 8) { return; } o.via.array.ptr[8].convert(&a9);
   }
 
-  argument9() { }
+  argument9() : a1(), a2(), a3(), a4(), a5(), a6(), a7(), a8(), a9() { }
 
   argument9(A1 _a1, A2 _a2, A3 _a3, A4 _a4, A5 _a5, A6 _a6, A7 _a7, A8 _a8, A9 _a9) : a1(_a1), a2(_a2), a3(_a3), a4(_a4), a5(_a5), a6(_a6), a7(_a7), a8(_a8), a9(_a9) { }
 
-- 
2.43.0


From 112239ae0ba2f03001561a4298766a5605e690fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:12 +0000
Subject: [PATCH 87/90] fix: mprpc malformed bytes end the connection, not the
 server

---
 src/network/mprpc/rpc_stream.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/network/mprpc/rpc_stream.cpp b/src/network/mprpc/rpc_stream.cpp
index 70b2b0d..72bdef1 100644
--- a/src/network/mprpc/rpc_stream.cpp
+++ b/src/network/mprpc/rpc_stream.cpp
@@ -46,15 +46,17 @@ int rpc_stream::try_receive(rpc_message* msg)
   msgpack::object obj;
   std::unique_ptr<msgpack::zone> zone;
 
-  int ret = os.read(&obj, &zone, timeout_sec);
-  if(ret <= 0) {
-    return ret;
-  }
-
   try {
+    int ret = os.read(&obj, &zone, timeout_sec);
+    if(ret <= 0) {
+      return ret;
+    }
+
     msg->reset(obj, std::move(zone));
   } catch (msgpack::type_error&) {
     return -1;
+  } catch (msgpack::unpack_error&) {
+    return -1;
   }
   return 1;
 }
-- 
2.43.0


From f7b1c4500431fed0e6d568ffcb98dd23056effdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:12 +0000
Subject: [PATCH 88/90] fix: mprpc a request whose method is not a string ends
 the connection, not the server

---
 src/network/mprpc/rpc_server.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/network/mprpc/rpc_server.cpp b/src/network/mprpc/rpc_server.cpp
index f5057d3..47bc0f9 100644
--- a/src/network/mprpc/rpc_server.cpp
+++ b/src/network/mprpc/rpc_server.cpp
@@ -166,9 +166,12 @@ void rpc_server::process()
         continue;
       }
 
-      rpc_request req(msg);
       try {
+        rpc_request req(msg);
         process_request(req, rs);
+      } catch (msgpack::type_error&) {
+        // the method is not a string
+        break;
       } catch (rpc_error&) {
       }
     }
-- 
2.43.0


From 9d2a76cb2b15dd71bc1b07190a5c54a0e2e4ac0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:12 +0000
Subject: [PATCH 89/90] fix: mprpc writing to a closed connection raises no
 SIGPIPE and nothing follows half a message

---
 src/network/mprpc/object_stream.cpp | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/network/mprpc/object_stream.cpp b/src/network/mprpc/object_stream.cpp
index 2638110..61128eb 100644
--- a/src/network/mprpc/object_stream.cpp
+++ b/src/network/mprpc/object_stream.cpp
@@ -35,7 +35,7 @@
 #include <iostream>
 #include <errno.h>
 #include <sys/types.h>
-#include <sys/uio.h>
+#include <sys/socket.h>
 #include <unistd.h>
 
 #include "socket.h"
@@ -102,17 +102,19 @@ int object_stream::write(const void* data, size_t size, double timeout_sec)
   const char* const pend = p + size;
   clock_time start = get_clock_time();
   while(p < pend) {
-    ssize_t rl = ::write(iofd, p, pend-p);
+    // no SIGPIPE when the peer has closed the connection
+    ssize_t rl = ::send(iofd, p, pend-p, MSG_NOSIGNAL);
     if(rl <= 0) {
-      if(rl == 0) {
-        return -1;
-      }
-      if(errno == EINTR) { continue; }
-      if(timeout_sec > 0.0 &&
-         timeout_sec < (double)(get_clock_time() - start)){
+      if(rl < 0 && errno == EINTR) { continue; }
+      const bool timeout = rl < 0 && timeout_sec > 0.0 &&
+        timeout_sec < (double)(get_clock_time() - start);
+      if(rl < 0 && errno == EAGAIN && !timeout) { continue; }
+      // the rest of a message cut in half would be taken from the next one,
+      // and nobody is to wait for a message that cannot be sent
+      if(p != data || !timeout) { ::shutdown(iofd, SHUT_RDWR); }
+      if(timeout) {
         throw rpc_timeout_error("timeout");
       }
-      if(errno == EAGAIN) { continue; }
       return -1;
     }
     p += rl;
-- 
2.43.0


From 1bd17cdb122f2ea25e7a3155dfc0cabc1f8f3235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:12 +0000
Subject: [PATCH 90/90] fix: mprpc functions that throw rpc_error or no
 std::exception are answered with an error

---
 src/network/mprpc/invoker.h      | 9 ++++++++-
 src/network/mprpc/rpc_server.cpp | 6 ++++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/network/mprpc/invoker.h b/src/network/mprpc/invoker.h
index 53a0480..d2d5f37 100644
--- a/src/network/mprpc/invoker.h
+++ b/src/network/mprpc/invoker.h
@@ -47,30 +47,37 @@ namespace mprpc {
 class responder {
 public:
   responder(uint32_t msgid, const pfi::lang::shared_ptr<rpc_stream>& rs) :
-    msgid(msgid), rs(rs) { }
+    msgid(msgid), rs(rs), responded_(false) { }
 
 public:
+  // whether a response was sent, or tried to be
+  bool responded() const { return responded_; }
+
   template <typename R>
   bool send_result(const R& r)
   {
+    responded_ = true;
     return rs->send_response(msgid, r, msgpack::type::nil());
   }
 
   template <typename E>
   bool send_error(const E& e)
   {
+    responded_ = true;
     return rs->send_response(msgid, msgpack::type::nil(), e);
   }
 
   template <typename E, typename R>
   bool send_error(const E& e, const R& r)
   {
+    responded_ = true;
     return rs->send_response(msgid, r, e);
   }
 
 private:
   uint32_t msgid;
   pfi::lang::shared_ptr<rpc_stream> rs;
+  bool responded_;
 };
 
 
diff --git a/src/network/mprpc/rpc_server.cpp b/src/network/mprpc/rpc_server.cpp
index 47bc0f9..ab432fd 100644
--- a/src/network/mprpc/rpc_server.cpp
+++ b/src/network/mprpc/rpc_server.cpp
@@ -198,9 +198,11 @@ void rpc_server::process_request(rpc_request& req, const pfi::lang::shared_ptr<r
 
   try {
     fun->second->invoke(req, res);
-  } catch (rpc_error&) {
   } catch (std::exception& e) {
-    res.send_error(std::string(e.what()));
+    // an exception of the function, unless a response was sent already
+    if(!res.responded()) { res.send_error(std::string(e.what())); }
+  } catch (...) {
+    if(!res.responded()) { res.send_error(std::string("unknown exception")); }
   }
 }
 
-- 
2.43.0

