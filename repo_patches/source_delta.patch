From 54c228afbd99c764a0b220ba1fa274262936688e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:11 +0000
Subject: [PATCH 01/10] fix: numeric getters convert exactly the number's own
 text

The conversion helpers copied any length into a 128 byte stack buffer and
then (except for int) converted the unterminated source instead.
---
 zzzjson.h | 36 ++++++++++++++++++++++++++++--------
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/zzzjson.h b/zzzjson.h
index 5134b61..b14c6a2 100644
--- a/zzzjson.h
+++ b/zzzjson.h
@@ -370,24 +370,44 @@ static inline zj_Size zj_strLen(const char *str) {
 }
 
 static inline int zj_strToInt(const char *str, zj_Size len) {
-  char s[128] = {0};
+  char buff[128];
+  char *s = len < sizeof(buff) ? buff : (char *)zj_new(len + 1);
   memcpy(s, str, len);
-  return atoi(s);
+  s[len] = 0;
+  int ret = atoi(s);
+  if (s != buff)
+    zj_free(s);
+  return ret;
 }
 static inline long zj_strToLong(const char *str, zj_Size len) {
-  char s[128] = {0};
+  char buff[128];
+  char *s = len < sizeof(buff) ? buff : (char *)zj_new(len + 1);
   memcpy(s, str, len);
-  return atol(str);
+  s[len] = 0;
+  long ret = atol(s);
+  if (s != buff)
+    zj_free(s);
+  return ret;
 }
 static inline long long zj_strToLongLong(const char *str, zj_Size len) {
-  char s[128] = {0};
+  char buff[128];
+  char *s = len < sizeof(buff) ? buff : (char *)zj_new(len + 1);
   memcpy(s, str, len);
-  return atoll(str);
+  s[len] = 0;
+  long long ret = atoll(s);
+  if (s != buff)
+    zj_free(s);
+  return ret;
 }
 static inline double zj_strToDouble(const char *str, zj_Size len) {
-  char s[128] = {0};
+  char buff[128];
+  char *s = len < sizeof(buff) ? buff : (char *)zj_new(len + 1);
   memcpy(s, str, len);
-  return atof(str);
+  s[len] = 0;
+  double ret = atof(s);
+  if (s != buff)
+    zj_free(s);
+  return ret;
 }
 
 static inline zj_Size zj_intToStr(int n, char *buff) {
-- 
2.43.0


From 40b3867eface57716e3e8cbd70f457b53ffceb1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:11 +0000
Subject: [PATCH 02/10] fix: Set takes the last child from the copy, not from
 the source

A later Add on the destination appended to the source's last element.
---
 zzzjson.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zzzjson.h b/zzzjson.h
index b14c6a2..ad35be8 100644
--- a/zzzjson.h
+++ b/zzzjson.h
@@ -2648,7 +2648,7 @@ static inline bool zj_Set(zj_Value *v, const zj_Value *vv) {
   v->N->Value = cp->N->Value;
   v->N->Len = cp->N->Len;
   if (v->N->Type == zj_JSONTypeArray || v->N->Type == zj_JSONTypeObject) {
-    v->N->End = vv->N->End;
+    v->N->End = cp->N->End;
     struct zj_node *next = v->N->Value.Node;
     while (zj_LIKELY(next != 0)) {
       next->Father = v->N;
-- 
2.43.0


From a5e4b8cb024b20330a106c5b86fb1cac0cbe4f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:11 +0000
Subject: [PATCH 03/10] fix: Move/Del keep the sibling links and the last-child
 pointer intact

Prev was cleared before it was used to repair Father->End and Next->Prev.
---
 zzzjson.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zzzjson.h b/zzzjson.h
index ad35be8..458a819 100644
--- a/zzzjson.h
+++ b/zzzjson.h
@@ -2196,14 +2196,14 @@ static inline bool zj_Move(zj_Value *v) {
       v->N->Father->Value.Node = v->N->Next;
     } else {
       v->N->Prev->Next = v->N->Next;
-      v->N->Prev = 0;
     }
     if (v->N->Next == 0) {
       v->N->Father->End = v->N->Prev;
     } else {
       v->N->Next->Prev = v->N->Prev;
-      v->N->Next = 0;
     }
+    v->N->Prev = 0;
+    v->N->Next = 0;
     --(v->N->Father->Len);
     v->N->Father = 0;
   }
-- 
2.43.0


From bc1aee70b9c2707924203d85da6edbc6f5e848b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:11 +0000
Subject: [PATCH 04/10] fix: the length-taking setters no longer share a cache
 between allocators

The static cache was allocated in the first caller's allocator and used
after that allocator had been released.
---
 zzzjson.h | 26 ++++++++------------------
 1 file changed, 8 insertions(+), 18 deletions(-)

diff --git a/zzzjson.h b/zzzjson.h
index 458a819..1812b52 100644
--- a/zzzjson.h
+++ b/zzzjson.h
@@ -575,8 +575,6 @@ struct zj_string {
   zj_Allocator *A;
 };
 
-static struct zj_string *zj_stringCache = 0;
-
 // 新建一个字符串
 static inline struct zj_string *zj_newString(zj_Allocator *alloc,
                                              zj_Size init_size) {
@@ -1291,15 +1289,11 @@ static inline bool zj_checkStr(const char *s, zj_Size *len) {
 // 较为省事的一种实现方法，后面会实现更高效的算法
 static inline bool zj_checkStrLen(zj_Allocator *alloc, const char *s,
                                   zj_Size len) {
-  if (zj_UNLIKELY(zj_stringCache == 0)) {
-    zj_stringCache = zj_newString(alloc, zj_StringCacheInitMemSize);
-  } else {
-    zj_reset(zj_stringCache);
-  }
-  zj_appendStr(zj_stringCache, s, len);
-  zj_appendEnd(zj_stringCache);
+  struct zj_string *str = zj_newString(alloc, len + 1);
+  zj_appendStr(str, s, len);
+  zj_appendEnd(str);
   zj_Size avail_len;
-  if (zj_UNLIKELY(zj_checkStr(zj_str(zj_stringCache), &avail_len) == false)) {
+  if (zj_UNLIKELY(zj_checkStr(zj_str(str), &avail_len) == false)) {
     return false;
   }
   if (zj_UNLIKELY(avail_len != len))
@@ -1408,15 +1402,11 @@ static inline bool zj_checkNum(const char *s, zj_Size *len) {
 }
 static inline bool zj_checkNumLen(zj_Allocator *alloc, const char *s,
                                   zj_Size len) {
-  if (zj_UNLIKELY(zj_stringCache == 0)) {
-    zj_stringCache = zj_newString(alloc, zj_StringCacheInitMemSize);
-  } else {
-    zj_reset(zj_stringCache);
-  }
-  zj_appendStr(zj_stringCache, s, len);
-  zj_appendEnd(zj_stringCache);
+  struct zj_string *str = zj_newString(alloc, len + 1);
+  zj_appendStr(str, s, len);
+  zj_appendEnd(str);
   zj_Size avail_len;
-  if (zj_UNLIKELY(zj_checkNum(zj_str(zj_stringCache), &avail_len) == false)) {
+  if (zj_UNLIKELY(zj_checkNum(zj_str(str), &avail_len) == false)) {
     return false;
   }
   if (zj_UNLIKELY(avail_len != len))
-- 
2.43.0


From 6bf8593b4896a3259c3e9cfa58633a0659f8ea1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:11 +0000
Subject: [PATCH 05/10] fix: SetStr/SetKey accept \uE000 to \uFFFF escapes

The low-surrogate range test had one F too many.
---
 zzzjson.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zzzjson.h b/zzzjson.h
index 1812b52..daee1cb 100644
--- a/zzzjson.h
+++ b/zzzjson.h
@@ -1255,7 +1255,7 @@ static inline bool zj_checkStr(const char *s, zj_Size *len) {
         if (zj_LIKELY(zj_consumeHex(s, &index, &cp))) {
           // 这里是UTF16标准，可以参考网上相关资料
           // 搜索关键字 UNICODE
-          if (zj_UNLIKELY(cp >= 0xDC00 && cp <= 0xDFFFF))
+          if (zj_UNLIKELY(cp >= 0xDC00 && cp <= 0xDFFF))
             return false;
           if (zj_UNLIKELY(cp >= 0xD800 && cp <= 0xDBFF)) {
             if (zj_LIKELY(zj_likelyConsume('\\', s, &index) &&
-- 
2.43.0


From f806b2b6459f4e90c712cf3da2028df8af5834d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:11 +0000
Subject: [PATCH 06/10] fix: literal matching does not read past the end of the
 text

The 4 byte loads read beyond the terminator of a truncated literal.
---
 zzzjson.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/zzzjson.h b/zzzjson.h
index daee1cb..35ddf18 100644
--- a/zzzjson.h
+++ b/zzzjson.h
@@ -850,7 +850,8 @@ static inline bool zj_unLikelyPeekAndConsume(const char c, const char *s,
 
 // 消费False
 static inline bool zj_consumeFalse(const char *s, zj_Size *index) {
-  if (zj_LIKELY(*((uint32_t *)("alse")) == *((uint32_t *)(s + *index)))) {
+  const char *p = s + *index;
+  if (zj_LIKELY(p[0] == 'a' && p[1] == 'l' && p[2] == 's' && p[3] == 'e')) {
     *index += 4;
     return true;
   }
@@ -859,7 +860,8 @@ static inline bool zj_consumeFalse(const char *s, zj_Size *index) {
 
 // 消费True
 static inline bool zj_consumeTrue(const char *s, zj_Size *index) {
-  if (zj_LIKELY(*((uint32_t *)zj_strTrue) == *((uint32_t *)(s + *index - 1)))) {
+  const char *p = s + *index;
+  if (zj_LIKELY(p[-1] == 't' && p[0] == 'r' && p[1] == 'u' && p[2] == 'e')) {
     *index += 3;
     return true;
   }
@@ -868,7 +870,8 @@ static inline bool zj_consumeTrue(const char *s, zj_Size *index) {
 
 // 消费Null
 static inline bool zj_consumeNull(const char *s, zj_Size *index) {
-  if (zj_LIKELY(*((uint32_t *)zj_strNull) == *((uint32_t *)(s + *index - 1)))) {
+  const char *p = s + *index;
+  if (zj_LIKELY(p[-1] == 'n' && p[0] == 'u' && p[1] == 'l' && p[2] == 'l')) {
     *index += 3;
     return true;
   }
-- 
2.43.0


From d9e8eacd296c68f7d959664cd3cfaf481b9aba04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:11 +0000
Subject: [PATCH 07/10] fix: SetNum/SetDouble reject NaN and infinities

They were stored as nan/inf, which is not a JSON number.
---
 zzzjson.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/zzzjson.h b/zzzjson.h
index 35ddf18..2b23fd2 100644
--- a/zzzjson.h
+++ b/zzzjson.h
@@ -2317,6 +2317,9 @@ static inline bool zj_SetNum(zj_Value *v, const double d) {
 }
 
 static inline bool zj_SetDouble(zj_Value *v, const double d) {
+  // JSON没有nan和inf
+  if (zj_UNLIKELY(!(d - d == 0)))
+    return false;
   char *num = zj_allocatorAlloc(v->A, 32);
   zj_Size len = zj_doubleToStr(d, num);
   if (zj_UNLIKELY(v->N == 0)) {
-- 
2.43.0


From 7f5045850258541bbd77aad850167339f04cc788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:11 +0000
Subject: [PATCH 08/10] fix: Set/ObjAdd/ArrayAdd copy into the destination's
 allocator

The copy lived in the source's allocator and dangled once that was released.
---
 zzzjson.h | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/zzzjson.h b/zzzjson.h
index 2b23fd2..d964459 100644
--- a/zzzjson.h
+++ b/zzzjson.h
@@ -2172,14 +2172,19 @@ static inline bool zj_ValueCopyFrom(zj_Value *v, const zj_Value *vv) {
   return true;
 }
 
-// 函数说明详见《API》
-static inline zj_Value *zj_Copy(const zj_Value *v) {
-  zj_Value *ret_val = zj_NewValue(v->A);
+// 用alloc创建一个值，内容拷贝自v，非对外API
+static inline zj_Value *zj_copyTo(zj_Allocator *alloc, const zj_Value *v) {
+  zj_Value *ret_val = zj_NewValue(alloc);
   if (zj_UNLIKELY(zj_ValueCopyFrom(ret_val, v) == false))
     return 0;
   return ret_val;
 }
 
+// 函数说明详见《API》
+static inline zj_Value *zj_Copy(const zj_Value *v) {
+  return zj_copyTo(v->A, v);
+}
+
 // 函数说明详见《API》
 static inline bool zj_Move(zj_Value *v) {
   if (zj_UNLIKELY(v->N == 0))
@@ -2633,7 +2638,7 @@ static inline bool zj_SetFast(zj_Value *v, zj_Value *vv) {
 
 // 函数说明详见《API》
 static inline bool zj_Set(zj_Value *v, const zj_Value *vv) {
-  zj_Value *cp = zj_Copy(vv);
+  zj_Value *cp = zj_copyTo(v->A, vv);
   if (zj_UNLIKELY(cp == 0))
     return false;
   if (zj_UNLIKELY(v->N == 0)) {
@@ -2691,7 +2696,7 @@ static inline bool zj_ObjAdd(zj_Value *v, const zj_Value *vv) {
     return false;
   if (zj_UNLIKELY(vv->N->Key == 0))
     return false;
-  zj_Value *cp = zj_Copy(vv);
+  zj_Value *cp = zj_copyTo(v->A, vv);
   if (zj_UNLIKELY(cp == 0))
     return false;
   cp->N->Father = v->N;
@@ -2738,7 +2743,7 @@ static inline bool zj_ArrayAdd(zj_Value *v, const zj_Value *vv) {
     return false;
   if (zj_UNLIKELY(v->N->Type != zj_JSONTypeArray))
     return false;
-  zj_Value *cp = zj_Copy(vv);
+  zj_Value *cp = zj_copyTo(v->A, vv);
   if (zj_UNLIKELY(cp == 0))
     return false;
   cp->N->Key = 0;
-- 
2.43.0


From 4d69981f685c368a7b438a6349d8055f9770a2dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:11 +0000
Subject: [PATCH 09/10] fix: ParseLen rejects text with an embedded NUL

Everything after the NUL was silently ignored.
---
 zzzjson.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/zzzjson.h b/zzzjson.h
index d964459..df6779a 100644
--- a/zzzjson.h
+++ b/zzzjson.h
@@ -1733,6 +1733,9 @@ static inline bool zj_ParseFast(zj_Value *v, const char *s) {
 
 // 函数说明详见《API》
 static inline bool zj_ParseLen(zj_Value *v, const char *s, zj_Size len) {
+  // 合法的JSON文本不包含0
+  if (zj_UNLIKELY(memchr(s, 0, len) != 0))
+    return false;
   char *str = zj_allocatorAlloc(v->A, len + 1);
   zj_memCopy(s, len, str);
   str[len] = 0;
-- 
2.43.0


From c025bbee810d8214cb325571ebc0e372d6768d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:54 +0000
Subject: [PATCH 10/10] fix: C++ wrapper SetNumStrLenFast keeps the text in
 place like the C function

---
 zzzjson.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zzzjson.hpp b/zzzjson.hpp
index 147eda8..103b96d 100644
--- a/zzzjson.hpp
+++ b/zzzjson.hpp
@@ -91,7 +91,7 @@ public:
   }
   bool SetNumStrFast(const char *num) { return zj::SetNumStrFast(val, num); }
   bool SetNumStrLenFast(const char *num, SIZE len) {
-    return zj::SetNumStrLen(val, num, len);
+    return zj::SetNumStrLenFast(val, num, len);
   }
   bool SetNum(const double d) { return zj::SetNum(val, d); }
   bool SetDouble(const double d) { return zj::SetDouble(val, d); }
-- 
2.43.0

