From 805c466b4fc92114417a623be87c81831486d635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:27 +0000
Subject: [PATCH 01/93] fix: compare 64 bit integer values exactly in
 rbusValue_Compare

---
 src/rbus/rbus_value.c | 58 +++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 58 insertions(+)

diff --git a/src/rbus/rbus_value.c b/src/rbus/rbus_value.c
index d95405e..dc91679 100644
--- a/src/rbus/rbus_value.c
+++ b/src/rbus/rbus_value.c
@@ -902,6 +902,49 @@ static double rbusValue_CoerceNumericToDouble(rbusValue_t v)
     }
 }
 
+/*returns true and sets i if the integer is negative, otherwise returns false and sets u*/
+static bool rbusValue_CoerceIntegerToMagnitude(rbusValue_t v, int64_t* i, uint64_t* u)
+{
+    switch(v->type)
+    {
+    case RBUS_CHAR:
+        *i = rbusValue_GetChar(v);
+        break;
+    case RBUS_INT8:
+        *i = rbusValue_GetInt8(v);
+        break;
+    case RBUS_INT16:
+        *i = rbusValue_GetInt16(v);
+        break;
+    case RBUS_INT32:
+        *i = rbusValue_GetInt32(v);
+        break;
+    case RBUS_INT64:
+        *i = rbusValue_GetInt64(v);
+        break;
+    case RBUS_BOOLEAN:
+        *u = rbusValue_GetBoolean(v);
+        return false;
+    case RBUS_BYTE:
+        *u = rbusValue_GetByte(v);
+        return false;
+    case RBUS_UINT8:
+        *u = rbusValue_GetUInt8(v);
+        return false;
+    case RBUS_UINT16:
+        *u = rbusValue_GetUInt16(v);
+        return false;
+    case RBUS_UINT32:
+        *u = rbusValue_GetUInt32(v);
+        return false;
+    default:
+        *u = rbusValue_GetUInt64(v);
+        return false;
+    }
+    *u = (uint64_t)*i;
+    return *i < 0;
+}
+
 int rbusValue_Compare(rbusValue_t v1, rbusValue_t v2)
 {
     if(v1 == v2)
@@ -910,6 +953,21 @@ int rbusValue_Compare(rbusValue_t v1, rbusValue_t v2)
     if((!v1)||(!v2))
         return -1;
 
+    /*compare integers exactly: a double cannot hold every 64 bit value*/
+    if(v1->type <= RBUS_UINT64 && v2->type <= RBUS_UINT64)
+    {
+        int64_t i1 = 0, i2 = 0;
+        uint64_t u1 = 0, u2 = 0;
+        bool neg1 = rbusValue_CoerceIntegerToMagnitude(v1, &i1, &u1);
+        bool neg2 = rbusValue_CoerceIntegerToMagnitude(v2, &i2, &u2);
+
+        if(neg1 != neg2)
+            return neg1 ? -1 : 1;
+        if(neg1)
+            return i1 == i2 ? 0 : (i1 < i2 ? -1 : 1);
+        return u1 == u2 ? 0 : (u1 < u2 ? -1 : 1);
+    }
+
     /*compare integral values being type insensitive*/
     if(v1->type <= RBUS_DOUBLE && v2->type <= RBUS_DOUBLE)
     {
-- 
2.43.0


From c0e048e1421883f4fbfe8965f6903999587ee57e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:27 +0000
Subject: [PATCH 02/93] fix: rbusValue_Compare reported different date-times as
 equal

---
 src/rbus/rbus_value.c | 22 +++++++---------------
 1 file changed, 7 insertions(+), 15 deletions(-)

diff --git a/src/rbus/rbus_value.c b/src/rbus/rbus_value.c
index dc91679..c04efc9 100644
--- a/src/rbus/rbus_value.c
+++ b/src/rbus/rbus_value.c
@@ -1007,26 +1007,18 @@ int rbusValue_Compare(rbusValue_t v1, rbusValue_t v2)
     }
     case RBUS_DATETIME:
     {
-        if(memcmp(rbusValue_GetTime(v1), rbusValue_GetTime(v2), sizeof(rbusDateTime_t)))
+        if(memcmp(rbusValue_GetTime(v1), rbusValue_GetTime(v2), sizeof(rbusDateTime_t)) == 0)
             return 0;
 
-        /*apply timezone and diff the times*/
+        /*apply timezone and diff the times: local time east of UTC is ahead of it; mktime normalizes the fields*/
         rbusDateTime_t dt1 = *rbusValue_GetTime(v1);
         rbusDateTime_t dt2 = *rbusValue_GetTime(v2);
 
-        dt1.m_time.tm_hour += (dt1.m_tz.m_isWest ? dt1.m_tz.m_tzhour * -1 : dt1.m_tz.m_tzhour);
-        dt1.m_time.tm_min += (dt1.m_tz.m_isWest ? dt1.m_tz.m_tzmin * -1 : dt1.m_tz.m_tzmin);
-        if(dt1.m_time.tm_min < 0)
-            dt1.m_time.tm_min += 60;
-        if(dt1.m_time.tm_min >= 60)
-            dt1.m_time.tm_min -= 60;
-
-        dt2.m_time.tm_hour += (dt2.m_tz.m_isWest ? dt2.m_tz.m_tzhour * -1 : dt2.m_tz.m_tzhour);
-        dt2.m_time.tm_min += (dt2.m_tz.m_isWest ? dt2.m_tz.m_tzmin * -1 : dt2.m_tz.m_tzmin);
-        if(dt2.m_time.tm_min < 0)
-            dt2.m_time.tm_min += 60;
-        if(dt2.m_time.tm_min >= 60)
-            dt2.m_time.tm_min -= 60;
+        dt1.m_time.tm_hour -= (dt1.m_tz.m_isWest ? dt1.m_tz.m_tzhour * -1 : dt1.m_tz.m_tzhour);
+        dt1.m_time.tm_min -= (dt1.m_tz.m_isWest ? dt1.m_tz.m_tzmin * -1 : dt1.m_tz.m_tzmin);
+
+        dt2.m_time.tm_hour -= (dt2.m_tz.m_isWest ? dt2.m_tz.m_tzhour * -1 : dt2.m_tz.m_tzhour);
+        dt2.m_time.tm_min -= (dt2.m_tz.m_isWest ? dt2.m_tz.m_tzmin * -1 : dt2.m_tz.m_tzmin);
 
         struct tm t1m, t2m;
         rbusValue_UnMarshallRBUStoTM(&t1m, &dt1);
-- 
2.43.0


From c5f004290fda76dc6730048d73fe9dd64f7878c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:27 +0000
Subject: [PATCH 03/93] fix: comparing, measuring or printing a NULL string or
 bytes value dereferenced NULL

---
 src/rbus/rbus_value.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/rbus/rbus_value.c b/src/rbus/rbus_value.c
index c04efc9..c8af031 100644
--- a/src/rbus/rbus_value.c
+++ b/src/rbus/rbus_value.c
@@ -229,6 +229,8 @@ char* rbusValue_ToString(rbusValue_t v, char* buf, size_t buflen)
         return NULL;
     if(v->type == RBUS_NONE)
         return NULL;
+    if((v->type == RBUS_STRING || v->type == RBUS_BYTES) && !v->d.bytes)
+        return NULL;
 
     if (buf)
     {
@@ -633,7 +635,7 @@ uint8_t const* rbusValue_GetV(rbusValue_t v)
     {
     case RBUS_STRING:
     case RBUS_BYTES:
-        return v->d.bytes->data;
+        return v->d.bytes ? v->d.bytes->data : NULL;
     default:
         return (uint8_t const*)&v->d.b;
     }
@@ -645,7 +647,7 @@ uint32_t rbusValue_GetL(rbusValue_t v)
         return 1;
     switch(v->type)
     {
-    case RBUS_STRING:       return v->d.bytes->posWrite; 
+    case RBUS_STRING:       return v->d.bytes ? v->d.bytes->posWrite : 0;
     case RBUS_BOOLEAN:      return sizeof(bool);
     case RBUS_INT32:        return sizeof(int32_t);
     case RBUS_UINT32:       return sizeof(uint32_t);
@@ -660,7 +662,7 @@ uint32_t rbusValue_GetL(rbusValue_t v)
     case RBUS_SINGLE:       return sizeof(float);
     case RBUS_DOUBLE:       return sizeof(double);
     case RBUS_DATETIME:     return sizeof(rbusDateTime_t);
-    case RBUS_BYTES:        return v->d.bytes->posWrite;
+    case RBUS_BYTES:        return v->d.bytes ? v->d.bytes->posWrite : 0;
     default:                return 0;
     }
 }
@@ -994,11 +996,17 @@ int rbusValue_Compare(rbusValue_t v1, rbusValue_t v2)
     {
     case RBUS_STRING:
     {
+        /*d.bytes is NULL for a NULL string, which sorts before any other*/
+        if(!v1->d.bytes || !v2->d.bytes)
+            return v1->d.bytes ? 1 : (v2->d.bytes ? -1 : 0);
         return strcmp((char const*)v1->d.bytes->data, (char const*)v2->d.bytes->data);
     }
     case RBUS_BYTES:
     {
-        int c = memcmp(v1->d.bytes->data, v2->d.bytes->data, v1->d.bytes->posWrite);
+        if(!v1->d.bytes || !v2->d.bytes)
+            return v1->d.bytes ? 1 : (v2->d.bytes ? -1 : 0);
+        int len = v1->d.bytes->posWrite < v2->d.bytes->posWrite ? v1->d.bytes->posWrite : v2->d.bytes->posWrite;
+        int c = memcmp(v1->d.bytes->data, v2->d.bytes->data, len);
         if(v1->d.bytes->posWrite < v2->d.bytes->posWrite && c == 0)
             c = -1;
         else if(v1->d.bytes->posWrite > v2->d.bytes->posWrite && c == 0)
-- 
2.43.0


From 08a32a13edfd67fa58f5241e0edfc1711d03ecbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:27 +0000
Subject: [PATCH 04/93] fix: rbusValue_ToString overran or left unterminated a
 caller buffer that is too short

---
 src/rbus/rbus_value.c | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/rbus/rbus_value.c b/src/rbus/rbus_value.c
index c8af031..fba988e 100644
--- a/src/rbus/rbus_value.c
+++ b/src/rbus/rbus_value.c
@@ -244,8 +244,8 @@ char* rbusValue_ToString(rbusValue_t v, char* buf, size_t buflen)
                 n = v->d.bytes->posWrite;
             break;
         case RBUS_BYTES:
-            if(n > v->d.bytes->posWrite + 1)
-                n = v->d.bytes->posWrite + 1;
+            if(n > (2 * v->d.bytes->posWrite) + 1)
+                n = (2 * v->d.bytes->posWrite) + 1;
             break;
         default:
             break;
@@ -313,14 +313,19 @@ char* rbusValue_ToString(rbusValue_t v, char* buf, size_t buflen)
     switch(v->type)
     {
     case RBUS_STRING:
-        strncpy(p, (char const* ) v->d.bytes->data, n);
+        if(n > 0)
+        {
+            strncpy(p, (char const* ) v->d.bytes->data, n);
+            p[n - 1] = 0;
+        }
         break;
     case RBUS_BYTES:
     {
         int i = 0;
-        for (i = 0; i < v->d.bytes->posWrite; i++)
-            sprintf (&p[i * 2], "%02X", v->d.bytes->data[i]);
-        p[2 * v->d.bytes->posWrite] = 0;
+        if(n > 0)
+            p[0] = 0;
+        for (i = 0; i < v->d.bytes->posWrite && i * 2 + 1 < n; i++)
+            snprintf (&p[i * 2], n - i * 2, "%02X", v->d.bytes->data[i]);
         break;
     }
     case RBUS_BOOLEAN:
-- 
2.43.0


From 4184c3027162b50307175305c54481b710166f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:27 +0000
Subject: [PATCH 05/93] fix: rbusValue_SetTLV copied as many bytes as the
 sender claimed into a fixed size value

---
 src/rbus/rbus_value.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/rbus/rbus_value.c b/src/rbus/rbus_value.c
index fba988e..cdd2c45 100644
--- a/src/rbus/rbus_value.c
+++ b/src/rbus/rbus_value.c
@@ -689,10 +689,15 @@ void rbusValue_SetTLV(rbusValue_t v, rbusValueType_t type, uint32_t length, void
     default:
         rbusValue_FreeInternal(v);
         v->type = type;
+        if(length != rbusValue_GetL(v))
+        {
+            RBUSLOG_WARN("length %u is wrong for type %d", length, type);
+            v->type = RBUS_NONE;
+            return;
+        }
         memcpy(&v->d.b, value, length);
         break;
     }
-    assert(rbusValue_GetL(v) == length);
 }
 
 int rbusValue_Decode(rbusValue_t* value, rbusBuffer_t const buff)
-- 
2.43.0


From 1686ad3a5d6e23d0efd4f0f8c20bd2a750d6750d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:27 +0000
Subject: [PATCH 06/93] fix: rbusBuffer_Read refused data ending at the block
 size and returned bytes never written

---
 src/rbus/rbus_buffer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rbus/rbus_buffer.c b/src/rbus/rbus_buffer.c
index 5241cd8..f3d8949 100644
--- a/src/rbus/rbus_buffer.c
+++ b/src/rbus/rbus_buffer.c
@@ -257,7 +257,7 @@ int rbusBuffer_Read(rbusBuffer_t const buff, void* data, int len)
 {
     if((!buff) || (!data))
         return -1;
-    if(!(buff->posRead + len < buff->lenAlloc))
+    if(len < 0 || len > buff->posWrite - buff->posRead)
     {
         RBUSLOG_WARN("rbusBuffer_Read failed");
         return -1;
-- 
2.43.0


From b6a6090927892a04b9aef88bc10a883796a79598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:27 +0000
Subject: [PATCH 07/93] fix: rbusBuffer_ReadBytes overwrote the caller's
 pointer instead of filling the new array

---
 src/rbus/rbus_buffer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rbus/rbus_buffer.c b/src/rbus/rbus_buffer.c
index f3d8949..76dbebf 100644
--- a/src/rbus/rbus_buffer.c
+++ b/src/rbus/rbus_buffer.c
@@ -395,5 +395,5 @@ int rbusBuffer_ReadBytes(rbusBuffer_t const buff, uint8_t** bytes, int* len)
         return -1;
     *len = buff->posWrite;
     *bytes = rt_malloc(buff->posWrite);
-    return rbusBuffer_Read(buff, bytes, buff->posWrite);
+    return rbusBuffer_Read(buff, *bytes, buff->posWrite);
 }
-- 
2.43.0


From 7afe04636861cd3f4d15b1d22ab87526a67e6464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:27 +0000
Subject: [PATCH 08/93] fix: rbusValue_Decode aborted the process or read past
 the data on malformed input

---
 src/rbus/rbus_value.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/rbus/rbus_value.c b/src/rbus/rbus_value.c
index cdd2c45..4496380 100644
--- a/src/rbus/rbus_value.c
+++ b/src/rbus/rbus_value.c
@@ -736,18 +736,20 @@ int rbusValue_Decode(rbusValue_t* value, rbusBuffer_t const buff)
     {
     /*Calling rbusValue_SetString/rbusValue_SetBytes so the value's internal buffer is created.*/
     case RBUS_STRING:
-        if(!(buff->posRead + length <= buff->lenAlloc))
+        /*length should captures null term*/
+        if(length > buff->posWrite - buff->posRead ||
+           strnlen((char const*)buff->data + buff->posRead, length) + 1 != (size_t)length)
         {
             RBUSLOG_WARN("rbusValue_Decode failed");
+            current->type = RBUS_NONE;
             rbusValue_Release(*value);
             return -1;
         }
-        assert(strlen((char const*)buff->data + buff->posRead) + 1 == (size_t)length);/*length should captures null term*/
         rbusValue_SetString(current, (char const*)buff->data + buff->posRead);
         buff->posRead += length;
         return length;
     case RBUS_BYTES:
-        if(!(buff->posRead + length <= buff->lenAlloc))
+        if(length > buff->posWrite - buff->posRead)
         {
             RBUSLOG_WARN("rbusValue_Decode failed");
             rbusValue_Release(*value);
@@ -800,8 +802,9 @@ int rbusValue_Decode(rbusValue_t* value, rbusBuffer_t const buff)
         rc = rbusBuffer_ReadDateTime(buff, &current->d.tv);
         break;
     default:
+        RBUSLOG_WARN("rbusValue_Decode unknown type %d", type);
+        current->type = RBUS_NONE;
         rbusValue_Release(*value);
-        assert(false);
         return -1;
     }
     if (rc != 0)
-- 
2.43.0


From 31653d4ee24b2405ab871ccbb465498f30073987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:27 +0000
Subject: [PATCH 09/93] fix: setting a string or bytes leaked the property or
 object a value held

---
 src/rbus/rbus_value.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rbus/rbus_value.c b/src/rbus/rbus_value.c
index 4496380..3e44568 100644
--- a/src/rbus/rbus_value.c
+++ b/src/rbus/rbus_value.c
@@ -573,6 +573,7 @@ static void rbusValue_SetBufferData(rbusValue_t v, const void* data, int len, rb
     }
     else
     {
+        rbusValue_FreeInternal(v);
         rbusBuffer_Create(&v->d.bytes);
     }
     rbusBuffer_Write(v->d.bytes, data, len);
-- 
2.43.0


From d5e953402237ed117b4a3bbdfc20a91b4bc52c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:37 +0000
Subject: [PATCH 10/93] fix: a NaN compared unequal to itself, so copying one
 aborted and polling one reported endless changes

---
 src/rbus/rbus_value.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rbus/rbus_value.c b/src/rbus/rbus_value.c
index 3e44568..a7e3b6b 100644
--- a/src/rbus/rbus_value.c
+++ b/src/rbus/rbus_value.c
@@ -990,6 +990,9 @@ int rbusValue_Compare(rbusValue_t v1, rbusValue_t v2)
         double d1 = rbusValue_CoerceNumericToDouble(v1);
         double d2 = rbusValue_CoerceNumericToDouble(v2);
 
+        /*NaN equals itself and sorts after every number*/
+        if(isnan(d1) || isnan(d2))
+            return (isnan(d1) ? 1 : 0) - (isnan(d2) ? 1 : 0);
         if(d1 == d2)
             return 0;
         else if(d1 < d2)
-- 
2.43.0


From aa462ce6f0f151526c44329c4a2596601dd83ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:37 +0000
Subject: [PATCH 11/93] fix: encoding a NULL string or bytes value dereferenced
 NULL

---
 src/rbus/rbus_value.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/rbus/rbus_value.c b/src/rbus/rbus_value.c
index a7e3b6b..e0397e0 100644
--- a/src/rbus/rbus_value.c
+++ b/src/rbus/rbus_value.c
@@ -737,6 +737,9 @@ int rbusValue_Decode(rbusValue_t* value, rbusBuffer_t const buff)
     {
     /*Calling rbusValue_SetString/rbusValue_SetBytes so the value's internal buffer is created.*/
     case RBUS_STRING:
+        /*a NULL string has no length*/
+        if(length == 0)
+            return 0;
         /*length should captures null term*/
         if(length > buff->posWrite - buff->posRead ||
            strnlen((char const*)buff->data + buff->posRead, length) + 1 != (size_t)length)
@@ -825,6 +828,11 @@ void rbusValue_Encode(rbusValue_t value, rbusBuffer_t buff)
     switch(value->type)
     {
     case RBUS_STRING:/*length should include null term*/
+        if(!value->d.bytes)
+        {
+            rbusBuffer_WriteStringTLV(buff, NULL, 0);
+            break;
+        }
         assert(value->d.bytes->data);
         assert(value->d.bytes->posWrite <= value->d.bytes->lenAlloc);
         assert(value->d.bytes->posRead == 0);
@@ -832,6 +840,11 @@ void rbusValue_Encode(rbusValue_t value, rbusBuffer_t buff)
         rbusBuffer_WriteStringTLV(buff, (char const*)value->d.bytes->data, value->d.bytes->posWrite);
         break;
     case RBUS_BYTES:
+        if(!value->d.bytes)
+        {
+            rbusBuffer_WriteBytesTLV(buff, NULL, 0);
+            break;
+        }
         assert(value->d.bytes->data);
         assert(value->d.bytes->posWrite <= value->d.bytes->lenAlloc);
         assert(value->d.bytes->posRead == 0);
-- 
2.43.0


From 0b2efc170c42b661281460d0cea8a2b102f4835d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:26 +0000
Subject: [PATCH 12/93] fix: a negative number behind white space was accepted
 as a huge unsigned value

---
 src/rbus/rbus_value.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rbus/rbus_value.c b/src/rbus/rbus_value.c
index e0397e0..1d31460 100644
--- a/src/rbus/rbus_value.c
+++ b/src/rbus/rbus_value.c
@@ -1170,7 +1170,7 @@ bool rbusValue_SetFromString(rbusValue_t value, rbusValueType_t type, const char
     if(value == NULL)
         return false;
 
-    char sign = *pStringInput;
+    char sign = pStringInput[strspn(pStringInput, " \t\n\v\f\r")];/*strtoul skips these too*/
     switch(type)
     {
     case RBUS_STRING:
-- 
2.43.0


From b9ec6f016e951a0a3d6042306d7453f01cc31a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:26 +0000
Subject: [PATCH 13/93] fix: a date-time parsed from text carried uninitialized
 fields

---
 src/rbus/rbus_value.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rbus/rbus_value.c b/src/rbus/rbus_value.c
index 1d31460..b866039 100644
--- a/src/rbus/rbus_value.c
+++ b/src/rbus/rbus_value.c
@@ -1326,7 +1326,7 @@ bool rbusValue_SetFromString(rbusValue_t value, rbusValueType_t type, const char
         }
     case RBUS_DATETIME:
         {
-            struct tm tv;
+            struct tm tv = {0};/*strptime sets only the fields it parses*/
             rbusDateTime_t tvm = {{0},{0}};
             if(0 != strncmp(pStringInput,"0000-",5)) {
                 char *pRet = NULL;
-- 
2.43.0


From 805921a57eca523e5024d0edca1db56365ce6170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:13 +0000
Subject: [PATCH 14/93] fix: rbusValue_ToString fills a short buffer with
 string text again, as its test requires

---
 src/rbus/rbus_value.c | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/rbus/rbus_value.c b/src/rbus/rbus_value.c
index b866039..9dadb37 100644
--- a/src/rbus/rbus_value.c
+++ b/src/rbus/rbus_value.c
@@ -314,10 +314,7 @@ char* rbusValue_ToString(rbusValue_t v, char* buf, size_t buflen)
     {
     case RBUS_STRING:
         if(n > 0)
-        {
             strncpy(p, (char const* ) v->d.bytes->data, n);
-            p[n - 1] = 0;
-        }
         break;
     case RBUS_BYTES:
     {
-- 
2.43.0


From af0d2232d94fe0fb55a3432d4ccb298666b87f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:56 +0000
Subject: [PATCH 15/93] fix: two threads releasing the last references
 destroyed the object twice

---
 src/rtmessage/rtAtomic.h     | 14 ++++++++++----
 src/rtmessage/rtMessage.c    |  4 +---
 src/rtmessage/rtRetainable.c |  5 ++---
 3 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/rtmessage/rtAtomic.h b/src/rtmessage/rtAtomic.h
index 2f6210f..1ef8125 100644
--- a/src/rtmessage/rtAtomic.h
+++ b/src/rtmessage/rtAtomic.h
@@ -55,17 +55,23 @@ static inline void rt_atomic_fetch_add(atomic_int* var, int value)
 #endif
 }
 
-static inline void rt_atomic_fetch_sub(atomic_int* var, int value)
+/*returns the value before the subtraction*/
+static inline int rt_atomic_fetch_sub(atomic_int* var, int value)
 {
 #if defined(RT_ATOMIC_HAS_ATOMIC_FETCH)
-    __atomic_fetch_sub(var, value, __ATOMIC_SEQ_CST);
+    return __atomic_fetch_sub(var, value, __ATOMIC_SEQ_CST);
 #elif defined(RT_ATOMIC_HAS_SYNC_FETCH)
-    __sync_fetch_and_sub(var, value);
+    return __sync_fetch_and_sub(var, value);
 #else
+    int previous = 0;
     pthread_mutex_lock(&g_atomic_mutex);
     if(NULL != var)
-        *(var) = *(var) - value;
+    {
+        previous = *(var);
+        *(var) = previous - value;
+    }
     pthread_mutex_unlock(&g_atomic_mutex);
+    return previous;
 #endif
 }
 
diff --git a/src/rtmessage/rtMessage.c b/src/rtmessage/rtMessage.c
index 99d9947..248ea30 100644
--- a/src/rtmessage/rtMessage.c
+++ b/src/rtmessage/rtMessage.c
@@ -617,9 +617,7 @@ rtMessage_Retain(rtMessage m)
 rtError
 rtMessage_Release(rtMessage m)
 {
-  if (m->count != 0)
-    rt_atomic_fetch_sub(&m->count, 1);
-  if (m->count == 0)
+  if (rt_atomic_fetch_sub(&m->count, 1) <= 1)
     rtMessage_Destroy(m);
   return RT_OK;
 }
diff --git a/src/rtmessage/rtRetainable.c b/src/rtmessage/rtRetainable.c
index c7d82e2..321da05 100644
--- a/src/rtmessage/rtRetainable.c
+++ b/src/rtmessage/rtRetainable.c
@@ -27,9 +27,8 @@ void rtRetainable_retainInternal(rtRetainable* r)
 
 void rtRetainable_releaseInternal(rtRetainable* r, void (*destructor)(rtRetainable*))
 {
-    rt_atomic_fetch_sub(&r->refCount, 1);
-
-    if(r->refCount == 0)
+    /*the count must not be read again: another thread may drop the last reference in between*/
+    if(rt_atomic_fetch_sub(&r->refCount, 1) == 1)
     {
         destructor(r);
     }
-- 
2.43.0


From 0bc39e1f56919401f9b0b78f64a3059200c1a052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:56 +0000
Subject: [PATCH 16/93] fix: setting what a property or object already holds
 released it before retaining it

---
 src/rbus/rbus_object.c   | 12 ++++++------
 src/rbus/rbus_property.c |  9 +++++----
 2 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/rbus/rbus_object.c b/src/rbus/rbus_object.c
index 68cef82..253c3ad 100644
--- a/src/rbus/rbus_object.c
+++ b/src/rbus/rbus_object.c
@@ -263,11 +263,11 @@ rbusProperty_t rbusObject_GetProperties(rbusObject_t object)
 void rbusObject_SetProperties(rbusObject_t object, rbusProperty_t properties)
 {
     VERIFY_NULL(object);
+    if(properties)
+        rbusProperty_Retain(properties);
     if(object->properties)
         rbusProperty_Release(object->properties);
     object->properties = properties;
-    if(object->properties)
-        rbusProperty_Retain(object->properties);
 }
 
 rbusProperty_t rbusObject_GetProperty(rbusObject_t object, char const* name)
@@ -413,11 +413,11 @@ rbusObject_t rbusObject_GetChildren(rbusObject_t object)
 void rbusObject_SetChildren(rbusObject_t object, rbusObject_t children)
 {
     VERIFY_NULL(object);
+    if(children)
+        rbusObject_Retain(children);
     if(object->children)
         rbusObject_Release(object->children);
     object->children = children;
-    if(object->children)
-        rbusObject_Retain(object->children);
 }
 
 rbusObject_t rbusObject_GetNext(rbusObject_t object)
@@ -430,11 +430,11 @@ rbusObject_t rbusObject_GetNext(rbusObject_t object)
 void rbusObject_SetNext(rbusObject_t object, rbusObject_t next)
 {
     VERIFY_NULL(object);
+    if(next)
+        rbusObject_Retain(next);
     if(object->next)
         rbusObject_Release(object->next);
     object->next = next;
-    if(object->next)
-        rbusObject_Retain(object->next);
 }
 
 rbusObjectType_t rbusObject_GetType(rbusObject_t object)
diff --git a/src/rbus/rbus_property.c b/src/rbus/rbus_property.c
index 368de22..0bdcb59 100644
--- a/src/rbus/rbus_property.c
+++ b/src/rbus/rbus_property.c
@@ -170,11 +170,12 @@ rbusValue_t rbusProperty_GetValue(rbusProperty_t property)
 void rbusProperty_SetValue(rbusProperty_t property, rbusValue_t value)
 {
     VERIFY_NULL(property);
+    /*retain first: value may be the one the property already holds*/
+    if(value)
+        rbusValue_Retain(value);
     if(property->value)
         rbusValue_Release(property->value);
     property->value = value;
-    if(property->value)
-        rbusValue_Retain(property->value);
 }
 
 rbusProperty_t rbusProperty_GetNext(rbusProperty_t property)
@@ -185,11 +186,11 @@ rbusProperty_t rbusProperty_GetNext(rbusProperty_t property)
 void rbusProperty_SetNext(rbusProperty_t property, rbusProperty_t next)
 {
     VERIFY_NULL(property);
+    if(next)
+        rbusProperty_Retain(next);
     if(property->next)
         rbusProperty_Release(property->next);
     property->next = next;
-    if(property->next)
-        rbusProperty_Retain(property->next);
 }
 
 void rbusProperty_Append(rbusProperty_t property, rbusProperty_t back)
-- 
2.43.0


From 964329954cc92161587ff3245f65a3848a6a10dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:56 +0000
Subject: [PATCH 17/93] fix: rbusObject_SetProperty with a property already in
 the object made its list endless

---
 src/rbus/rbus_object.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rbus/rbus_object.c b/src/rbus/rbus_object.c
index 253c3ad..0bdcbcb 100644
--- a/src/rbus/rbus_object.c
+++ b/src/rbus/rbus_object.c
@@ -305,6 +305,8 @@ void rbusObject_SetProperty(rbusObject_t object, rbusProperty_t newProp)
                 oldProp = NULL;
             }
         }
+        if(oldProp == newProp)/*already in the list*/
+            return;
         if(oldProp)/*existing property found by name*/
         {   /*replace oldProp with newProp, preserving the rest of the property list*/
 
-- 
2.43.0


From 252a0060a3e08511bb3235d4198b81d76290c2e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:56 +0000
Subject: [PATCH 18/93] fix: rbusFilter_Decode refused NOT filters and returned
 garbage for unknown ones

---
 src/rbus/rbus_filter.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/rbus/rbus_filter.c b/src/rbus/rbus_filter.c
index 1edc8bf..9ac84d6 100644
--- a/src/rbus/rbus_filter.c
+++ b/src/rbus/rbus_filter.c
@@ -243,7 +243,7 @@ int rbusFilter_Decode(rbusFilter_t* filterOut, rbusBuffer_t const buff)
     rbusFilter_RelationOperator_t relOp;
     rbusFilter_LogicOperator_t logOp;
     rbusValue_t val;
-    rbusFilter_t left, right;
+    rbusFilter_t left = NULL, right = NULL;
 
     if(rbusBuffer_ReadUInt16(buff, &type) < 0)
         return -1;
@@ -291,13 +291,22 @@ int rbusFilter_Decode(rbusFilter_t* filterOut, rbusBuffer_t const buff)
             return -1;
         if(rbusFilter_Decode(&left, buff) < 0)
             return -1;
-        if(rbusFilter_Decode(&right, buff) < 0)
+        /*a NOT has a single operand*/
+        if(logOp != RBUS_FILTER_OPERATOR_NOT && rbusFilter_Decode(&right, buff) < 0)
+        {
+            rbusFilter_Release(left);
             return -1;
+        }
 
         rbusFilter_InitLogic(&filter, logOp, left, right);
         rbusFilter_Release(left);
         rbusFilter_Release(right);
     }
+    else
+    {
+        RBUSLOG_WARN("rbusFilter_Decode failed");
+        return -1;
+    }
     *filterOut = filter;
     return 0;
 }
-- 
2.43.0


From d5dcd6216ffe77fd64405e6ee8e629190b74ae45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:05 +0000
Subject: [PATCH 19/93] fix: rbusMessage_GetString returned text running past
 the end of a message

---
 src/core/rbuscore_message.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/core/rbuscore_message.c b/src/core/rbuscore_message.c
index 187cbab..6907ae9 100644
--- a/src/core/rbuscore_message.c
+++ b/src/core/rbuscore_message.c
@@ -190,6 +190,12 @@ rtError rbusMessage_SetString(rbusMessage message, char const* value)
 rtError rbusMessage_GetString(rbusMessage const message, char const** value)
 {
     VERIFY_UNPACK(MSGPACK_OBJECT_STR);
+    /*the terminator is part of the encoding, see rbusMessage_SetString*/
+    if(message->upk.data.via.str.size == 0 || message->upk.data.via.str.ptr[message->upk.data.via.str.size - 1] != 0)
+    {
+        RBUSCORELOG_ERROR("%s string is not terminated", __FUNCTION__);
+        return RT_FAIL;
+    }
     *value = message->upk.data.via.str.ptr;
     return RT_OK;
 }
-- 
2.43.0


From fb6c057b84c058f0101dad4fcdffe4244eea1011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:05 +0000
Subject: [PATCH 20/93] fix: reading the meta section of a message shorter than
 its trailer looked before the message

---
 src/core/rbuscore_message.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/rbuscore_message.c b/src/core/rbuscore_message.c
index 6907ae9..89e2e81 100644
--- a/src/core/rbuscore_message.c
+++ b/src/core/rbuscore_message.c
@@ -283,7 +283,7 @@ void rbusMessage_BeginMetaSectionRead(rbusMessage message)
 {
     int section_offset = 0;
     message->meta_offset = message->read_offset; //For safekeeping.
-    message->read_offset = message->sbuf.size - 5;
+    message->read_offset = message->sbuf.size < 5 ? 0 : message->sbuf.size - 5;
     rbusMessage_GetInt32(message, &section_offset);
     message->read_offset = section_offset;
 }
-- 
2.43.0


From 9cccebd41d9d14bd83b7f5a12c602ced22bb5dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:46 +0000
Subject: [PATCH 21/93] fix: rbusFilter_Decode lost the second operand of a NOT
 filter stored with one

---
 src/rbus/rbus_filter.c | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/rbus/rbus_filter.c b/src/rbus/rbus_filter.c
index 9ac84d6..f41c797 100644
--- a/src/rbus/rbus_filter.c
+++ b/src/rbus/rbus_filter.c
@@ -26,6 +26,7 @@
 #include "rbus_buffer.h"
 
 #define VERIFY_NULL(T) if(NULL == T){ return; }
+#define FILTER_EXPRESSION_NONE 0xFF /*stored in place of an operand which is absent*/
 typedef struct _rbusFilter_LogicExpression* rbusFilter_LogicExpression_t;
 
 struct _rbusFilter_RelationExpression
@@ -230,11 +231,14 @@ void rbusFilter_Encode(rbusFilter_t filter, rbusBuffer_t buff)
     {
         rbusBuffer_WriteUInt32TLV(buff, filter->e.logic.op);
         rbusFilter_Encode(filter->e.logic.left, buff);
-        rbusFilter_Encode(filter->e.logic.right, buff);
+        if(filter->e.logic.right)
+            rbusFilter_Encode(filter->e.logic.right, buff);
+        else
+            rbusBuffer_WriteUInt32TLV(buff, FILTER_EXPRESSION_NONE);
     }
 }
 
-int rbusFilter_Decode(rbusFilter_t* filterOut, rbusBuffer_t const buff)
+static int rbusFilter_DecodeExpression(rbusFilter_t* filterOut, rbusBuffer_t const buff, bool optional)
 {
     uint16_t    type;
     uint16_t    length;
@@ -289,10 +293,10 @@ int rbusFilter_Decode(rbusFilter_t* filterOut, rbusBuffer_t const buff)
         }
         if(rbusBuffer_ReadUInt32(buff, &logOp) < 0)
             return -1;
-        if(rbusFilter_Decode(&left, buff) < 0)
+        if(rbusFilter_DecodeExpression(&left, buff, false) < 0)
             return -1;
-        /*a NOT has a single operand*/
-        if(logOp != RBUS_FILTER_OPERATOR_NOT && rbusFilter_Decode(&right, buff) < 0)
+        /*a NOT only needs its left operand*/
+        if(rbusFilter_DecodeExpression(&right, buff, logOp == RBUS_FILTER_OPERATOR_NOT) < 0)
         {
             rbusFilter_Release(left);
             return -1;
@@ -302,6 +306,10 @@ int rbusFilter_Decode(rbusFilter_t* filterOut, rbusBuffer_t const buff)
         rbusFilter_Release(left);
         rbusFilter_Release(right);
     }
+    else if(optional && filterType == FILTER_EXPRESSION_NONE)
+    {
+        filter = NULL;
+    }
     else
     {
         RBUSLOG_WARN("rbusFilter_Decode failed");
@@ -311,6 +319,11 @@ int rbusFilter_Decode(rbusFilter_t* filterOut, rbusBuffer_t const buff)
     return 0;
 }
 
+int rbusFilter_Decode(rbusFilter_t* filterOut, rbusBuffer_t const buff)
+{
+    return rbusFilter_DecodeExpression(filterOut, buff, false);
+}
+
 int rbusFilter_Compare(rbusFilter_t filter1, rbusFilter_t filter2)
 {
     if(filter1 && filter2)
-- 
2.43.0


From b9b817cc6b0f4465fb46ebc87a771b1f6680534b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:46 +0000
Subject: [PATCH 22/93] fix: querying an empty name read the byte before it

---
 src/rbus/rbus.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index a063aad..cc70950 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -959,6 +959,8 @@ bool _is_valid_get_query(char const* name)
         int length = strlen (name);
         int temp = 0;
         temp = length - 1;
+        if (length == 0)
+            return false;
         if (('!' == name[temp]) ||
             (')' == name[temp]) ||
             (NULL != strstr (name, "(")))
@@ -987,6 +989,9 @@ bool _is_wildcard_query(char const* name)
         int temp = 0;
         temp = length - 1;
 
+        if (length == 0)
+            return false;
+
         if (('.' == name[temp]) || (NULL != strstr (name, "*")))
         {
             RBUSLOG_DEBUG("The Query is having wildcard.. ");
-- 
2.43.0


From 75f4976b8846349989c3d57194b49b15ea100c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:46 +0000
Subject: [PATCH 23/93] fix: values, lists and filters cut short in a message
 were read from uninitialised memory

---
 src/rbus/rbus.c | 151 +++++++++++++++++++++++++++++-------------------
 1 file changed, 93 insertions(+), 58 deletions(-)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index cc70950..3d0434d 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -482,24 +482,25 @@ static bool _parse_rbusData_to_value (char const* pBuff, rbusLegacyDataType_t le
 rbusError_t rbusValue_initFromMessage(rbusValue_t* value, rbusMessage msg);
 void rbusValue_appendToMessage(char const* name, rbusValue_t value, rbusMessage msg);
 rbusError_t rbusProperty_initFromMessage(rbusProperty_t* property, rbusMessage msg);
-void rbusPropertyList_initFromMessage(rbusProperty_t* prop, rbusMessage msg);
+rbusError_t rbusPropertyList_initFromMessage(rbusProperty_t* prop, rbusMessage msg);
 void rbusPropertyList_appendToMessage(rbusProperty_t prop, rbusMessage msg);
-void rbusObject_initFromMessage(rbusObject_t* obj, rbusMessage msg);
+rbusError_t rbusObject_initFromMessage(rbusObject_t* obj, rbusMessage msg);
 void rbusObject_appendToMessage(rbusObject_t obj, rbusMessage msg);
 void rbusEventData_updateFromMessage(rbusEvent_t* event, rbusFilter_t* filter, uint32_t* interval,
         uint32_t* duration, int32_t* componentId, rbusMessage msg);
 void rbusEventData_appendToMessage(rbusEvent_t* event, rbusFilter_t filter, uint32_t interval,
         uint32_t duration, int32_t componentId, rbusMessage msg);
 void rbusFilter_AppendToMessage(rbusFilter_t filter, rbusMessage msg);
-void rbusFilter_InitFromMessage(rbusFilter_t* filter, rbusMessage msg);
+rbusError_t rbusFilter_InitFromMessage(rbusFilter_t* filter, rbusMessage msg);
 
 rbusError_t rbusValue_initFromMessage(rbusValue_t* value, rbusMessage msg)
 {
-    uint8_t const* data;
+    uint8_t const* data = NULL;
     bool rc = true;
-    uint32_t length;
-    int type;
+    uint32_t length = 0;
+    int type = RBUS_NONE;
     char const* pBuffer = NULL;
+    rtError err = RT_OK;
 
     if (!value)
     {
@@ -509,13 +510,15 @@ rbusError_t rbusValue_initFromMessage(rbusValue_t* value, rbusMessage msg)
 
     rbusValue_Init(value);
 
-    rbusMessage_GetInt32(msg, (int*) &type);
+    if(rbusMessage_GetInt32(msg, (int*) &type) != RT_OK)
+        return RBUS_ERROR_INVALID_INPUT;
 #if DEBUG_SERIALIZER
     RBUSLOG_INFO("> value pop type=%d", type);
 #endif
     if(type>=RBUS_LEGACY_STRING && type<=RBUS_LEGACY_NONE)
     {
-        rbusMessage_GetString(msg, &pBuffer);
+        if(rbusMessage_GetString(msg, &pBuffer) != RT_OK)
+            return RBUS_ERROR_INVALID_INPUT;
         RBUSLOG_DEBUG("Received Param Value in string : [%s]", pBuffer);
         rc = _parse_rbusData_to_value (pBuffer, type, *value);
         if(!rc)
@@ -529,70 +532,74 @@ rbusError_t rbusValue_initFromMessage(rbusValue_t* value, rbusMessage msg)
         if(type == RBUS_OBJECT)
         {
             rbusObject_t obj;
-            rbusObject_initFromMessage(&obj, msg);
+            rbusError_t result = rbusObject_initFromMessage(&obj, msg);
             rbusValue_SetObject(*value, obj);
             rbusObject_Release(obj);
+            return result;
         }
         else
         if(type == RBUS_PROPERTY)
         {
             rbusProperty_t prop;
-            rbusPropertyList_initFromMessage(&prop, msg);
+            rbusError_t result = rbusPropertyList_initFromMessage(&prop, msg);
             rbusValue_SetProperty(*value, prop);
             rbusProperty_Release(prop);
+            return result;
         }
         else
         {
-            int32_t ival;
-            int64_t i64;
-            double fval;
+            int32_t ival = 0;
+            int64_t i64 = 0;
+            double fval = 0;
 
             switch(type)
             {
                 case RBUS_INT16:
-                    rbusMessage_GetInt32(msg, &ival);
+                    err = rbusMessage_GetInt32(msg, &ival);
                     rbusValue_SetInt16(*value, (int16_t)ival);
                     break;
                 case RBUS_UINT16:
-                    rbusMessage_GetInt32(msg, &ival);
+                    err = rbusMessage_GetInt32(msg, &ival);
                     rbusValue_SetUInt16(*value, (uint16_t)ival);
                     break;
                 case RBUS_INT32:
-                    rbusMessage_GetInt32(msg, &ival);
+                    err = rbusMessage_GetInt32(msg, &ival);
                     rbusValue_SetInt32(*value, (int32_t)ival);
                     break;
                 case RBUS_UINT32:
-                    rbusMessage_GetInt32(msg, &ival);
+                    err = rbusMessage_GetInt32(msg, &ival);
                     rbusValue_SetUInt32(*value, (uint32_t)ival);
 
                     break;
                 case RBUS_INT64:
                 {
-                    rbusMessage_GetInt64(msg, &i64);
+                    err = rbusMessage_GetInt64(msg, &i64);
                     rbusValue_SetInt64(*value, (int64_t)i64);
                     break;
                 }
                 case RBUS_UINT64:
                 {
-                    rbusMessage_GetInt64(msg, &i64);
+                    err = rbusMessage_GetInt64(msg, &i64);
                     rbusValue_SetUInt64(*value, (uint64_t)i64);
                     break;
                 }
                 case RBUS_SINGLE:
-                    rbusMessage_GetDouble(msg, &fval);
+                    err = rbusMessage_GetDouble(msg, &fval);
                     rbusValue_SetSingle(*value, (float)fval);
                     break;
                 case RBUS_DOUBLE:
-                    rbusMessage_GetDouble(msg, &fval);
+                    err = rbusMessage_GetDouble(msg, &fval);
                     rbusValue_SetDouble(*value, (double)fval);
                     break;
                 case RBUS_DATETIME:
-                    rbusMessage_GetBytes(msg, &data, &length);
-                    rbusValue_SetTLV(*value, type, length, data);
+                    err = rbusMessage_GetBytes(msg, &data, &length);
+                    if(err == RT_OK)
+                        rbusValue_SetTLV(*value, type, length, data);
                     break;
                 default:
-                    rbusMessage_GetBytes(msg, &data, &length);
-                    rbusValue_SetTLV(*value, type, length, data);
+                    err = rbusMessage_GetBytes(msg, &data, &length);
+                    if(err == RT_OK)
+                        rbusValue_SetTLV(*value, type, length, data);
                     break;
             }
 
@@ -603,16 +610,15 @@ rbusError_t rbusValue_initFromMessage(rbusValue_t* value, rbusMessage msg)
 #endif
         }
     }
-    return RBUS_ERROR_SUCCESS;
+    return err == RT_OK ? RBUS_ERROR_SUCCESS : RBUS_ERROR_INVALID_INPUT;
 }
 
 rbusError_t rbusProperty_initFromMessage(rbusProperty_t* property, rbusMessage msg)
 {
-    char const* name;
+    char const* name = NULL;
     rbusValue_t value;
     rbusError_t err = RBUS_ERROR_SUCCESS;
-
-    rbusMessage_GetString(msg, (char const**) &name);
+    rtError rc = rbusMessage_GetString(msg, (char const**) &name);
 #if DEBUG_SERIALIZER
     RBUSLOG_INFO("> prop pop name=%s", name);
 #endif
@@ -623,7 +629,9 @@ rbusError_t rbusProperty_initFromMessage(rbusProperty_t* property, rbusMessage m
         return RBUS_ERROR_INVALID_INPUT;
     }
 
-    rbusProperty_Init(property, name, NULL);
+    rbusProperty_Init(property, rc == RT_OK ? name : "", NULL);
+    if(rc != RT_OK)
+        return RBUS_ERROR_INVALID_INPUT;
     err= rbusValue_initFromMessage(&value, msg);
     rbusProperty_SetValue(*property, value);
     rbusValue_Release(value);
@@ -651,18 +659,20 @@ void rbusPropertyList_appendToMessage(rbusProperty_t prop, rbusMessage msg)
     }
 }
 
-void rbusPropertyList_initFromMessage(rbusProperty_t* prop, rbusMessage msg)
+rbusError_t rbusPropertyList_initFromMessage(rbusProperty_t* prop, rbusMessage msg)
 {
     rbusProperty_t previous = NULL, first = NULL;
     int numProps = 0;
-    rbusMessage_GetInt32(msg, (int*) &numProps);
+    rbusError_t err = RBUS_ERROR_SUCCESS;
+    if(rbusMessage_GetInt32(msg, (int*) &numProps) != RT_OK)
+        err = RBUS_ERROR_INVALID_INPUT;
 #if DEBUG_SERIALIZER
     RBUSLOG_INFO("> prop pop numProps=%d", numProps);
 #endif
-    while(--numProps >= 0)
+    while(--numProps >= 0 && err == RBUS_ERROR_SUCCESS)
     {
         rbusProperty_t prop;
-        rbusProperty_initFromMessage(&prop, msg);
+        err = rbusProperty_initFromMessage(&prop, msg);
         if(first == NULL)
             first = prop;
         if(previous != NULL)
@@ -674,6 +684,7 @@ void rbusPropertyList_initFromMessage(rbusProperty_t* prop, rbusMessage msg)
     }
     /*TODO we need to release the props we inited*/
     *prop = first;
+    return err;
 }
 
 void rbusObject_appendToMessage(rbusObject_t obj, rbusMessage msg)
@@ -711,31 +722,36 @@ void rbusObject_appendToMessage(rbusObject_t obj, rbusMessage msg)
     }
 }
 
-void rbusObject_initFromMessage(rbusObject_t* obj, rbusMessage msg)
+rbusError_t rbusObject_initFromMessage(rbusObject_t* obj, rbusMessage msg)
 {
     char const* name = NULL;
     int type = 0;
     int numChild = 0;
     rbusProperty_t prop;
     rbusObject_t children=NULL, previous=NULL;
+    rbusError_t err = RBUS_ERROR_SUCCESS;
 
-    rbusMessage_GetString(msg, &name);
-    rbusMessage_GetInt32(msg, &type);
+    if(rbusMessage_GetString(msg, &name) != RT_OK || rbusMessage_GetInt32(msg, &type) != RT_OK)
+    {
+        rbusObject_Init(obj, "");
+        return RBUS_ERROR_INVALID_INPUT;
+    }
 #if DEBUG_SERIALIZER
     RBUSLOG_INFO("> object pop name=%s type=%d", name, type);
 #endif
 
-    rbusPropertyList_initFromMessage(&prop, msg);
+    err = rbusPropertyList_initFromMessage(&prop, msg);
 
-    rbusMessage_GetInt32(msg, &numChild);
+    if(err == RBUS_ERROR_SUCCESS && rbusMessage_GetInt32(msg, &numChild) != RT_OK)
+        err = RBUS_ERROR_INVALID_INPUT;
 #if DEBUG_SERIALIZER
     RBUSLOG_INFO("> object pop numChild=%d", numChild);
 #endif
 
-    while(--numChild >= 0)
+    while(--numChild >= 0 && err == RBUS_ERROR_SUCCESS)
     {
         rbusObject_t next;
-        rbusObject_initFromMessage(&next, msg);/*object child object*/
+        err = rbusObject_initFromMessage(&next, msg);/*object child object*/
         if(children == NULL)
             children = next;
         if(previous != NULL)
@@ -755,6 +771,7 @@ void rbusObject_initFromMessage(rbusObject_t* obj, rbusMessage msg)
     rbusProperty_Release(prop);
     rbusObject_SetChildren(*obj, children);
     rbusObject_Release(children);
+    return err;
 }
 
 void rbusValue_appendToMessage(char const* name, rbusValue_t value, rbusMessage msg)
@@ -765,6 +782,11 @@ void rbusValue_appendToMessage(char const* name, rbusValue_t value, rbusMessage
 
     if(value)
         type = rbusValue_GetType(value);
+    if(type == RBUS_OBJECT && !rbusValue_GetObject(value))
+    {
+        type = RBUS_NONE;
+        value = NULL;
+    }
     rbusMessage_SetInt32(msg, type);
 #if DEBUG_SERIALIZER
     RBUSLOG_INFO("> value add name=%s type=%d", name, type);
@@ -854,46 +876,61 @@ void rbusFilter_AppendToMessage(rbusFilter_t filter, rbusMessage msg)
     }
 }
 
-void rbusFilter_InitFromMessage(rbusFilter_t* filter, rbusMessage msg)
+rbusError_t rbusFilter_InitFromMessage(rbusFilter_t* filter, rbusMessage msg)
 {
-    int32_t type;
-    int32_t op;
+    int32_t type = -1;
+    int32_t op = 0;
+    rbusError_t err = RBUS_ERROR_INVALID_INPUT;
 
-    rbusMessage_GetInt32(msg, &type);
+    *filter = NULL;
+    if(rbusMessage_GetInt32(msg, &type) != RT_OK)
+        return err;
 
     if(type == RBUS_FILTER_EXPRESSION_RELATION)
     {
         char const* name;
         rbusValue_t val;
-        rbusMessage_GetInt32(msg, &op);
-        rbusMessage_GetString(msg, &name);
-        rbusValue_initFromMessage(&val, msg);
-        rbusFilter_InitRelation(filter, op, val);
+        if(rbusMessage_GetInt32(msg, &op) != RT_OK || rbusMessage_GetString(msg, &name) != RT_OK)
+            return err;
+        err = rbusValue_initFromMessage(&val, msg);
+        if(err == RBUS_ERROR_SUCCESS)
+            rbusFilter_InitRelation(filter, op, val);
         rbusValue_Release(val);
     }
     else if(type == RBUS_FILTER_EXPRESSION_LOGIC)
     {
         rbusFilter_t left = NULL, right = NULL;
-        rbusMessage_GetInt32(msg, &op);
-        rbusFilter_InitFromMessage(&left, msg);
-        if(op != RBUS_FILTER_OPERATOR_NOT)
-            rbusFilter_InitFromMessage(&right, msg);
-        rbusFilter_InitLogic(filter, op, left, right);
+        if(rbusMessage_GetInt32(msg, &op) != RT_OK)
+            return err;
+        err = rbusFilter_InitFromMessage(&left, msg);
+        if(err == RBUS_ERROR_SUCCESS && op != RBUS_FILTER_OPERATOR_NOT)
+            err = rbusFilter_InitFromMessage(&right, msg);
+        if(err == RBUS_ERROR_SUCCESS)
+            rbusFilter_InitLogic(filter, op, left, right);
         rbusFilter_Release(left);
         if(right)
             rbusFilter_Release(right);
     }
+    else if(type == -1) /*what rbusFilter_AppendToMessage writes when there is no filter*/
+    {
+        err = RBUS_ERROR_SUCCESS;
+    }
+    return err;
 }
 
 void rbusEventData_updateFromMessage(rbusEvent_t* event, rbusFilter_t* filter,
         uint32_t* interval, uint32_t* duration, int32_t* componentId, rbusMessage msg)
 {
-    char const* name;
-    int type;
+    char const* name = "";
+    int type = 0;
     rbusObject_t data = NULL;
     int hasFilter = false;
     int hasEventData =  false;
     
+    *filter = NULL;
+    *interval = 0;
+    *duration = 0;
+    *componentId = 0;
     rbusMessage_GetString(msg, (char const**) &name);
     rbusMessage_GetInt32(msg, (int*) &type);
 #if DEBUG_SERIALIZER
@@ -906,8 +943,6 @@ void rbusEventData_updateFromMessage(rbusEvent_t* event, rbusFilter_t* filter,
     rbusMessage_GetInt32(msg, &hasFilter);
     if(hasFilter)
         rbusFilter_InitFromMessage(filter, msg);
-    else
-        *filter = NULL;
 
     event->name = name;
     event->type = type;
-- 
2.43.0


From 9a8eb75182a3c1ed46b50f6681e025820028b040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:41 +0000
Subject: [PATCH 24/93] fix: a provider did not roll back a multiple set which
 failed on a missing or read-only parameter

---
 src/rbus/rbus.c | 59 ++++++++++++++++++++++++++++---------------------
 1 file changed, 34 insertions(+), 25 deletions(-)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index 3d0434d..52bedbd 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -1572,9 +1572,12 @@ static void _set_callback_handler (rbusHandle_t handle, rbusMessage request, rbu
             for (loopCnt = 0; loopCnt < numVals; loopCnt++)
             {
                 rc = rbusProperty_initFromMessage(&pProperties[loopCnt], request);
+                if(rc != RBUS_ERROR_SUCCESS)
+                {
+                    numVals = loopCnt + 1;
+                    goto exit;
+                }
             }
-            if(rc != RBUS_ERROR_SUCCESS)
-                goto exit;
             rbusMessage_GetString(request, (char const**) &pIsCommit);
 
             /* Since we set as string, this needs to compared with string..
@@ -1582,7 +1585,7 @@ static void _set_callback_handler (rbusHandle_t handle, rbusMessage request, rbu
             * isCommit used to set only the last parameter in the list in order
             * to turn this into a bulk set operation: FIXME maybe we need a 'bulk' option
             */
-            if (strncasecmp("TRUE", pIsCommit, 4) == 0)
+            if (pIsCommit && strncasecmp("TRUE", pIsCommit, 4) == 0)
                 isCommit = true;
 
             for (loopCnt = 0; loopCnt < numVals; loopCnt++)
@@ -1603,6 +1606,12 @@ static void _set_callback_handler (rbusHandle_t handle, rbusMessage request, rbu
                                 ELM_PRIVATE_LOCK(el);
                                 rc = el->cbTable.getHandler(handle, currentData, &options);
                                 ELM_PRIVATE_UNLOCK(el);
+                                if(rc != RBUS_ERROR_SUCCESS || !rbusProperty_GetValue(currentData))
+                                {
+                                    RBUSLOG_WARN("%s cannot be reverted as its current value is not available", paramName);
+                                    rbusProperty_Release(currentData);
+                                    currentData = NULL;
+                                }
                            }
                            else
                                 RBUSLOG_INFO("%s is a write only parameter",paramName);
@@ -1617,25 +1626,7 @@ static void _set_callback_handler (rbusHandle_t handle, rbusMessage request, rbu
                         {
                             RBUSLOG_WARN("Set Failed for %s; Component Owner returned Error", paramName);
                             pFailedElement = paramName;
-                            if(rollBack == 1)
-                            {
-                                RBUSLOG_DEBUG("Reverting because set failed for this param:%s",pFailedElement);
-                                /*===========< Rollback old values >============*/
-                                rbusProperty_t prevProp = cachedData;
-                                while(prevProp)
-                                {
-                                    char const* prevParamName = rbusProperty_GetName(prevProp);
-                                    el = retrieveInstanceElement(handleInfo->elementRoot, prevParamName);
-                                    ELM_PRIVATE_LOCK(el);
-                                    err = el->cbTable.setHandler(handle, prevProp, &opts);
-                                    ELM_PRIVATE_UNLOCK(el);
-                                    prevProp = rbusProperty_GetNext(prevProp);
-                                    if(err != RBUS_ERROR_SUCCESS)
-                                    {
-                                        RBUSLOG_WARN("Reverting paramValues of %s to initial values failed",prevParamName);
-                                    }
-                                }
-                            }
+                            rbusProperty_Release(currentData);
                             break;
                         }
                         else
@@ -1660,8 +1651,6 @@ static void _set_callback_handler (rbusHandle_t handle, rbusMessage request, rbu
                         RBUSLOG_WARN("Set Failed for %s; No Handler found", paramName);
                         rc = RBUS_ERROR_NOT_WRITABLE;
                         pFailedElement = paramName;
-                        if(cachedData)
-                           rbusProperty_Release(cachedData);
                         break;
                     }
                 }
@@ -1673,6 +1662,25 @@ static void _set_callback_handler (rbusHandle_t handle, rbusMessage request, rbu
                     break;
                 }
             }
+            if(rc != RBUS_ERROR_SUCCESS && rollBack == 1)
+            {
+                RBUSLOG_DEBUG("Reverting because set failed for this param:%s",pFailedElement);
+                /*===========< Rollback old values >============*/
+                rbusProperty_t prevProp = cachedData;
+                while(prevProp)
+                {
+                    char const* prevParamName = rbusProperty_GetName(prevProp);
+                    el = retrieveInstanceElement(handleInfo->elementRoot, prevParamName);
+                    ELM_PRIVATE_LOCK(el);
+                    err = el->cbTable.setHandler(handle, prevProp, &opts);
+                    ELM_PRIVATE_UNLOCK(el);
+                    prevProp = rbusProperty_GetNext(prevProp);
+                    if(err != RBUS_ERROR_SUCCESS)
+                    {
+                        RBUSLOG_WARN("Reverting paramValues of %s to initial values failed",prevParamName);
+                    }
+                }
+            }
         }
         else
         {
@@ -1694,11 +1702,12 @@ exit:
     if (rc == RBUS_ERROR_SUCCESS)
     {
         rbusPropertyList_appendToMessage(cachedData, *response);
-        rbusProperty_Release(cachedData);
     }
     else if(pFailedElement)
         rbusMessage_SetString(*response, pFailedElement);
 
+    rbusProperty_Release(cachedData);
+
     if(pProperties)
     {
         for (loopCnt = 0; loopCnt < numVals; loopCnt++)
-- 
2.43.0


From 1e38e07b5174ee0d8039942765518ba1e3104236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:41 +0000
Subject: [PATCH 25/93] fix: a multiple set over several providers was not
 rolled back everywhere and could report success

---
 src/rbus/rbus.c | 95 +++++++++++++++++++++++++++----------------------
 1 file changed, 53 insertions(+), 42 deletions(-)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index 52bedbd..2f76247 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -4188,6 +4188,8 @@ rbusError_t _setMultiInternal(rbusHandle_t handle, uint32_t numProps, rbusProper
     VERIFY_NULL(handle);
     if(timeout == 0)
         timeout = rbusHandle_FetchSetMultiTimeout(handle);
+    if(pFailedElement)
+        *pFailedElement = NULL;
     if (handleInfo->m_handleType != RBUS_HWDL_TYPE_REGULAR)
     {
         return RBUS_ERROR_INVALID_HANDLE;
@@ -4262,6 +4264,8 @@ rbusError_t _setMultiInternal(rbusHandle_t handle, uint32_t numProps, rbusProper
 
             if(errorcode == RBUS_ERROR_INVALID_INPUT)
             {
+                for(i = 0; i < numProps; ++i)
+                    free(componentNames[i]);
                 free(componentNames);
                 free(pParamNames);
                 return RBUS_ERROR_INVALID_INPUT;
@@ -4269,6 +4273,7 @@ rbusError_t _setMultiInternal(rbusHandle_t handle, uint32_t numProps, rbusProper
 
             for(;;)
             {
+                bool batchFailed = false;
                 char* componentName = NULL;
                 char const* firstParamName = NULL;
                 int batchCount = 0;
@@ -4333,6 +4338,7 @@ rbusError_t _setMultiInternal(rbusHandle_t handle, uint32_t numProps, rbusProper
                     {
                         RBUSLOG_ERROR("%s for %s failed with error: %s", __FUNCTION__, firstParamName, rbusCoreErrorToString(err));
                         errorcode = rbusCoreError_to_rbusError(err);
+                        batchFailed = true;
                     }
                     else
                     {
@@ -4347,63 +4353,63 @@ rbusError_t _setMultiInternal(rbusHandle_t handle, uint32_t numProps, rbusProper
                         {
                             errorcode = RBUS_ERROR_SUCCESS;
                             RBUSLOG_DEBUG("Successfully Set the Value");
-                            rbusPropertyList_initFromMessage(&cachedProperties, setResponse);
-                            pFailedElement = NULL;
+                            /*keep what every provider had before, to revert all of them on a later failure*/
+                            rbusProperty_t previous = NULL;
+                            rbusPropertyList_initFromMessage(&previous, setResponse);
+                            if(cachedProperties == NULL)
+                                cachedProperties = previous;
+                            else if(previous)
+                            {
+                                rbusProperty_Append(cachedProperties, previous);
+                                rbusProperty_Release(previous);
+                            }
                         }
                         else
                         {
-                            if(pFailedElement)
-                            {
-                                rbusMessage_GetString(setResponse, &pErrorReason);
+                            rbusMessage_GetString(setResponse, &pErrorReason);
+                            RBUSLOG_WARN("Failed to Set the Value for %s", pErrorReason ? pErrorReason : "");
+                            if(pFailedElement && pErrorReason)
                                 *pFailedElement = strdup((char*)pErrorReason);
-                                RBUSLOG_WARN("Failed to Set the Value For %s", *pFailedElement);
-                            }
-                            else
-                            {
-                                rbusMessage_GetString(setResponse, &pErrorReason);
-                                RBUSLOG_WARN("Failed to Set the Value for %s", pErrorReason);
-                            }
-                            if(rollBack)
-                            {
-                                char *pTempFailedElement = NULL;
-                                rbusSetOptions_t revertOpts;
-                                if ((opts) && (opts->sessionId != 0))
-                                {
-                                    revertOpts.commit = true;
-                                    revertOpts.sessionId= opts->sessionId;
-                                }
-                                else
-                                {
-                                    revertOpts.commit = true;
-                                    revertOpts.sessionId = 0;
-                                }
-                                cachedNumProps = 0;
-                                cachedNumProps = rbusProperty_Count(cachedProperties);
-                                rbusError_t result;
-                                result = _setMultiInternal(handle, cachedNumProps, cachedProperties, &revertOpts, (int)timeout, &pTempFailedElement, false);
-                                if(result == RBUS_ERROR_SUCCESS)
-                                    RBUSLOG_DEBUG("Successfully reverted back the values");
-                                else if((result != RBUS_ERROR_SUCCESS) && (pTempFailedElement))
-                                {
-                                    RBUSLOG_WARN("Failed to rollback %s\n",pTempFailedElement);
-                                    free(pTempFailedElement);
-                                }
-                            }
+                            batchFailed = true;
                             if(legacyRetCode > RBUS_LEGACY_ERR_SUCCESS)
                             {
                                 errorcode = CCSPError_to_rbusError(legacyRetCode);
                             }
-                            if (componentName)
-                                free(componentName);
-                            rbusMessage_Release(setResponse);
-                            break;
                         }
 
                         /* Release the reponse message */
                         rbusMessage_Release(setResponse);
                     }
+                    if(batchFailed && rollBack && cachedProperties)
+                    {
+                        char *pTempFailedElement = NULL;
+                        rbusSetOptions_t revertOpts;
+                        if ((opts) && (opts->sessionId != 0))
+                        {
+                            revertOpts.commit = true;
+                            revertOpts.sessionId= opts->sessionId;
+                        }
+                        else
+                        {
+                            revertOpts.commit = true;
+                            revertOpts.sessionId = 0;
+                        }
+                        cachedNumProps = 0;
+                        cachedNumProps = rbusProperty_Count(cachedProperties);
+                        rbusError_t result;
+                        result = _setMultiInternal(handle, cachedNumProps, cachedProperties, &revertOpts, (int)timeout, &pTempFailedElement, false);
+                        if(result == RBUS_ERROR_SUCCESS)
+                            RBUSLOG_DEBUG("Successfully reverted back the values");
+                        else if((result != RBUS_ERROR_SUCCESS) && (pTempFailedElement))
+                        {
+                            RBUSLOG_WARN("Failed to rollback %s\n",pTempFailedElement);
+                            free(pTempFailedElement);
+                        }
+                    }
                     if (componentName)
                         free(componentName);
+                    if(batchFailed)
+                        break;
                 }
                 else
                 {
@@ -4427,7 +4433,12 @@ rbusError_t _setMultiInternal(rbusHandle_t handle, uint32_t numProps, rbusProper
         if(pParamNames)
             free(pParamNames);
         if(componentNames)
+        {
+            /*the names of batches which were not sent any more*/
+            for(i = 0; i < (uint32_t)numComponents; ++i)
+                free(componentNames[i]);
             free(componentNames);
+        }
     }
     if(cachedProperties)
         rbusProperty_Release(cachedProperties);
-- 
2.43.0


From e3750d3aad27883c8325b4fa2c65aa21db3cd864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:07 +0000
Subject: [PATCH 26/93] fix: getting several parameters could report success
 without all of them, or use freed or uninitialised memory

---
 src/rbus/rbus.c | 82 ++++++++++++++++++++++++++++++++-----------------
 1 file changed, 53 insertions(+), 29 deletions(-)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index 2f76247..972931b 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -3586,7 +3586,12 @@ rbusError_t rbus_get(rbusHandle_t handle, char const* name, rbusValue_t* value)
                 rbusMessage_GetString(response, &buff);
                 if(buff && (strcmp(name, buff) == 0))
                 {
-                    rbusValue_initFromMessage(value, response);
+                    if(rbusValue_initFromMessage(value, response) != RBUS_ERROR_SUCCESS)
+                    {
+                        rbusValue_Release(*value);
+                        *value = NULL;
+                        errorcode = RBUS_ERROR_INVALID_RESPONSE_FROM_DESTINATION;
+                    }
                 }
                 else
                 {
@@ -3628,31 +3633,42 @@ rbusError_t _getExt_response_parser(rbusMessage response, int *numValues, rbusPr
     {
         errorcode = RBUS_ERROR_SUCCESS;
         RBUSLOG_DEBUG("Received valid response!");
-        rbusMessage_GetInt32(response, &numOfVals);
-        *numValues = numOfVals;
+        if(rbusMessage_GetInt32(response, &numOfVals) != RT_OK || numOfVals < 0)
+            errorcode = RBUS_ERROR_INVALID_RESPONSE_FROM_DESTINATION;
         RBUSLOG_DEBUG("Number of return params = %d", numOfVals);
 
-        if(numOfVals)
+        if(errorcode == RBUS_ERROR_SUCCESS && numOfVals)
         {
-            rbusProperty_t last;
+            rbusProperty_t first = NULL;
+            rbusProperty_t last = NULL;
             for(i = 0; i < numOfVals; i++)
             {
+                rbusProperty_t tmpProperties = NULL;
+                rbusError_t rc = rbusProperty_initFromMessage(&tmpProperties, response);
                 /* For the first instance, lets use the given pointer */
                 if (0 == i)
                 {
-                    rbusProperty_initFromMessage(retProperties, response);
-                    last = *retProperties;
+                    first = tmpProperties;
                 }
                 else
                 {
-                    rbusProperty_t tmpProperties;
-                    rbusProperty_initFromMessage(&tmpProperties, response);
                     rbusProperty_SetNext(last, tmpProperties);
                     rbusProperty_Release(tmpProperties);
-                    last = tmpProperties;
+                }
+                last = tmpProperties;
+                if(rc != RBUS_ERROR_SUCCESS)
+                {
+                    errorcode = RBUS_ERROR_INVALID_RESPONSE_FROM_DESTINATION;
+                    break;
                 }
             }
+            if(errorcode == RBUS_ERROR_SUCCESS)
+                *retProperties = first;
+            else if(first)
+                rbusProperty_Release(first);
         }
+        if(errorcode == RBUS_ERROR_SUCCESS)
+            *numValues = numOfVals;
     }
     else
     {
@@ -3682,6 +3698,10 @@ rbusError_t rbus_getExt(rbusHandle_t handle, int paramCount, char const** pParam
     if (handleInfo->m_handleType != RBUS_HWDL_TYPE_REGULAR)
         return RBUS_ERROR_INVALID_HANDLE;
 
+    /* Initialize */
+    *retProperties = NULL;
+    *numValues = 0;
+
     if ((1 == paramCount))
     {
         if (!_is_wildcard_query(pParamNames[0]))
@@ -3689,10 +3709,6 @@ rbusError_t rbus_getExt(rbusHandle_t handle, int paramCount, char const** pParam
             rbusProperty_t outputVals = NULL;
             rbusValue_t getVal = NULL;
 
-            /* Initialize */
-            *retProperties = NULL;
-            *numValues = 0;
-
             /*Do get the single param */
             errorcode = rbus_get(handle, pParamNames[0], &getVal);
             if(RBUS_ERROR_SUCCESS == errorcode)
@@ -3711,7 +3727,7 @@ rbusError_t rbus_getExt(rbusHandle_t handle, int paramCount, char const** pParam
         else
         {
             int numDestinations = 0;
-            char** destinations;
+            char** destinations = NULL;
             //int length = strlen(pParamNames[0]);
 
             err = rbus_discoverWildcardDestinations(pParamNames[0], &numDestinations, &destinations);
@@ -3781,10 +3797,12 @@ rbusError_t rbus_getExt(rbusHandle_t handle, int paramCount, char const** pParam
                                         {
                                             last = tmpProperties;
                                             *retProperties = last;
+                                            tmpProperties = NULL;
                                         }
                                     }
                                 }
-                                rbusProperty_Release(tmpProperties);
+                                if(tmpProperties)
+                                    rbusProperty_Release(tmpProperties);
                             }
                         }
                         if (errorcode != RBUS_ERROR_SUCCESS)
@@ -3822,7 +3840,7 @@ rbusError_t rbus_getExt(rbusHandle_t handle, int paramCount, char const** pParam
 
     {
         rbusMessage request, response;
-        int numComponents;
+        int numComponents = 0;
         char** componentNames = NULL;
 
         /*discover which components have some ownership of the params in the list*/
@@ -3845,17 +3863,8 @@ rbusError_t rbus_getExt(rbusHandle_t handle, int paramCount, char const** pParam
                 }
             }
 
-            if(errorcode == RBUS_ERROR_INVALID_INPUT)
-            {
-                free(componentNames);
-                return RBUS_ERROR_INVALID_INPUT;
-            }
-
-            *retProperties = NULL;/*NULL to mark first batch*/
-            *numValues = 0;
-
             /*batch by component*/
-            for(;;)
+            while(errorcode == RBUS_ERROR_SUCCESS)
             {
                 char* componentName = NULL;
                 char const* firstParamName = NULL;
@@ -3882,7 +3891,8 @@ rbusError_t rbus_getExt(rbusHandle_t handle, int paramCount, char const** pParam
                 if(componentName)
                 {
                     rbusMessage_Init(&request);
-                    rbusMessage_SetString(request, componentName);
+                    /* Set the Component name that invokes the get */
+                    rbusMessage_SetString(request, handleInfo->componentName);
                     rbusMessage_SetInt32(request, batchCount);
 
                     RBUSLOG_DEBUG("batchCount %d", batchCount);
@@ -3924,7 +3934,7 @@ rbusError_t rbus_getExt(rbusHandle_t handle, int paramCount, char const** pParam
                             {
                                 *retProperties = batchResult;
                             }
-                            else /*append subsequent batches*/
+                            else if(batchResult) /*append subsequent batches*/
                             {
                                 rbusProperty_Append(*retProperties, batchResult);
                                 rbusProperty_Release(batchResult);
@@ -3945,7 +3955,21 @@ rbusError_t rbus_getExt(rbusHandle_t handle, int paramCount, char const** pParam
             RBUSLOG_ERROR("Discover component names failed with error %d and counts %d/%d", errorcode, paramCount, numComponents);
         }
         if(componentNames)
+        {
+            for(i = 0; i < numComponents; ++i)
+            {
+                if(componentNames[i])
+                    free(componentNames[i]);
+            }
             free(componentNames);
+        }
+        /*a list is returned whole or not at all*/
+        if(errorcode != RBUS_ERROR_SUCCESS && *retProperties)
+        {
+            rbusProperty_Release(*retProperties);
+            *retProperties = NULL;
+            *numValues = 0;
+        }
     }
     return errorcode;
 }
-- 
2.43.0


From 5ec9dcdf3ead00db0051932ac00f7a89d38b05f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:07 +0000
Subject: [PATCH 27/93] fix: a provider could crash on a get request with a
 missing name or the name "*"

---
 src/rbus/rbus.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index 972931b..0cd8929 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -1913,13 +1913,16 @@ rbusError_t get_recursive_wildcard_handler (rbusHandle_t handle, char const *par
 
     /* Update the Get Handler input options */
     rbusGetHandlerOptions_t options;
+    memset(&options, 0, sizeof(options));
     options.requestingComponent = pRequestingComp;
 
     /* Have the backup of given name */
     snprintf(instanceName, RBUS_MAX_NAME_LENGTH, "%s", parameterName);
-    int length = strlen(instanceName) - 1;
+    int length = (int)strlen(instanceName) - 1;
+    if (length < 0)
+        return RBUS_ERROR_ELEMENT_DOES_NOT_EXIST;
 
-    if ((instanceName[length] == '*') && (instanceName[length-1] == '.'))
+    if ((length > 0) && (instanceName[length] == '*') && (instanceName[length-1] == '.'))
     {
         instanceName[length] = '\0';
         length--;
@@ -2009,6 +2012,7 @@ static rbusError_t _get_single_dml_handler (rbusHandle_t handle, char const *par
     rbusError_t result = RBUS_ERROR_SUCCESS;
     /* Update the Get Handler input options */
     rbusGetHandlerOptions_t options;
+    memset(&options, 0, sizeof(options));
     options.requestingComponent = pRequestingComp;
 
     RBUSLOG_DEBUG("calling get single for [%s]", parameterName);
@@ -2076,7 +2080,12 @@ static void _get_callback_handler (rbusHandle_t handle, rbusMessage request, rbu
             for(i = 0; i < paramSize; i++)
             {
                 parameterName = NULL;
-                rbusMessage_GetString(request, &parameterName);
+                if(rbusMessage_GetString(request, &parameterName) != RT_OK || parameterName == NULL)
+                {
+                    RBUSLOG_WARN("Get failed as the name of parameter %d is missing", i);
+                    result = RBUS_ERROR_INVALID_INPUT;
+                    break;
+                }
 
                 RBUSLOG_DEBUG("Param Name [%d]:[%s]", i, parameterName);
 
-- 
2.43.0


From 4922d1d6305bf6b9a7da6ed47c7a6a7ae408222a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:22 +0000
Subject: [PATCH 28/93] fix: naming the results of a partial path query could
 loop forever or write past the name buffer

---
 src/rbus/rbus.c | 85 +++++++++++++++++++++----------------------------
 1 file changed, 37 insertions(+), 48 deletions(-)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index 0cd8929..ce95b66 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -1730,61 +1730,50 @@ exit:
  */
 static char const* _convert_reg_name_to_instance_name(char const* registrationName, char const* query, char* buffer)
 {
-    int idx = 0;
+    size_t idx = 0;
     char const* preg = registrationName;
     char const* pinst= query;
 
-    while(*preg != 0 && *pinst != 0)
-    {
-        while(*preg == *pinst)
-        {
-            buffer[idx++] = *preg;
-            preg++;
-            pinst++;
-        }
-        
-        if(*preg == '{')
-        {
-            while(*pinst && *pinst != '.')
-                buffer[idx++] = *pinst++;
-
-            while(*preg && *preg != '.')
-                preg++;
-        }
+    /*
+     *---------------------------------------------------------------------------------------------------
+     * In the Registered Name, whereever {i} is present, must be replaced with the number from the Query.
+     * We should not be changing the registered name with additional info from queries.
+     * Ex: When query received for the subtables,
+     *      RegisteredName  : Device.Tables1.T1.{i}.T2
+     *      Query           : Device.Tables1.T1.2.T2.
+     *      Final should be : Device.Tables1.T1.2.T2
+     * In short, the input query is used only to find & replace {i} in the registered name.
+     * Both names are walked token by token, and the result never exceeds RBUS_MAX_NAME_LENGTH.
+     *---------------------------------------------------------------------------------------------------
+     */
+    while(*preg != 0)
+    {
+        size_t lreg = strcspn(preg, ".");
+        size_t linst = strcspn(pinst, ".");
+        char const* token = preg;
+        size_t len = lreg;
+
+        if(*preg == '{' && linst > 0)
+        {
+            token = pinst;
+            len = linst;
+        }
+        if(idx + len + 2 > RBUS_MAX_NAME_LENGTH)
+            break;
+        memcpy(buffer + idx, token, len);
+        idx += len;
 
-        if(*pinst == 0) /*end of partial path but continue to write out the full name of child*/
+        preg += lreg;
+        pinst += linst;
+        if(*preg == '.')
         {
-            while(*preg)
-            {
-                buffer[idx++] = *preg++;
-            }
-        }
-        /*
-         *---------------------------------------------------------------------------------------------------
-         * In the Registered Name, whereever {i} is present, must be replaced with the number from the Query.
-         * We should not be changing the registered name with additional info from queries.
-         * Ex: When query received for the subtables,
-         *      RegisteredName  : Device.Tables1.T1.{i}.T2
-         *      Query           : Device.Tables1.T1.2.T2.
-         *      Final should be : Device.Tables1.T1.2.T2
-         * If we enable below code, it will change the final buffer as below which is wrong.
-         *                        Device.Tables1.T1.2.T2.
-         *---------------------------------------------------------------------------------------------------
-         * In short, the input query is used only to find & replace {i} in the registered name.
-         * So removed the below code
-         *---------------------------------------------------------------------------------------------------
-         */
-#if 0
-        else if(*preg == 0) /*end of query path but continue to write out the full name of child*/
-        {
-            while(*pinst)
-            {
-                buffer[idx++] = *pinst++;
-            }
+            buffer[idx++] = '.';
+            preg++;
         }
-#endif
+        if(*pinst == '.')
+            pinst++;
     }
-    buffer[idx++] = 0;
+    buffer[idx] = 0;
 
     RBUSLOG_DEBUG(" _convert_reg_name_to_instance_name");
     RBUSLOG_DEBUG("   reg: %s", registrationName);
-- 
2.43.0


From e95550e699a3b4fd2b89be2a1689bd2985aff404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:22 +0000
Subject: [PATCH 29/93] fix: registering a table dropped and leaked the row
 elements registered before it

---
 src/rbus/rbus_element.c | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/rbus/rbus_element.c b/src/rbus/rbus_element.c
index 60cb5f1..c6222d7 100644
--- a/src/rbus/rbus_element.c
+++ b/src/rbus/rbus_element.c
@@ -357,12 +357,20 @@ elementNode* insertElement(elementNode* root, rbusDataElement_t* elem)
          */
         if(elem->type == RBUS_ELEMENT_TYPE_TABLE)
         {
-            elementNode* rowTemplate = getEmptyElementNode();
-            rowTemplate->parent = currentNode;
-            rowTemplate->name = strdup("{i}");
-            snprintf(buff, RBUS_MAX_NAME_LENGTH, "%s.%s", currentNode->fullName, rowTemplate->name);
-            rowTemplate->fullName = strdup(buff);
-            currentNode->child = rowTemplate;
+            /* the template may already be there, with elements, if they were registered before their table */
+            elementNode* rowTemplate = currentNode->child;
+            while(rowTemplate && strcmp(rowTemplate->name, "{i}") != 0)
+                rowTemplate = rowTemplate->nextSibling;
+            if(!rowTemplate)
+            {
+                rowTemplate = getEmptyElementNode();
+                rowTemplate->parent = currentNode;
+                rowTemplate->name = strdup("{i}");
+                snprintf(buff, RBUS_MAX_NAME_LENGTH, "%s.%s", currentNode->fullName, rowTemplate->name);
+                rowTemplate->fullName = strdup(buff);
+                rowTemplate->nextSibling = currentNode->child;
+                currentNode->child = rowTemplate;
+            }
             currentNode->cbTable.tableSyncHandler = elem->cbTable.methodHandler;
         }
         else
-- 
2.43.0


From 14a89ff4d47775f418a4e4e4df69705d940370a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:22 +0000
Subject: [PATCH 30/93] fix: a table row could be added to or removed as the
 template of its rows, and row numbers above 2^31 were misnamed

---
 src/rbus/rbus.c | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index ce95b66..f2a80d6 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -2300,7 +2300,7 @@ static void _get_parameter_names_handler (rbusHandle_t handle, rbusMessage reque
         {
             if(strcmp(child->name, "{i}") != 0)
             {
-                rbusMessage_SetInt32(*response, atoi(child->name));
+                rbusMessage_SetInt32(*response, (int32_t)strtoul(child->name, NULL, 10));
                 rbusMessage_SetString(*response, child->alias ? child->alias : "");
             }
             child = child->nextSibling;
@@ -2380,6 +2380,12 @@ static void _get_parameter_names_handler (rbusHandle_t handle, rbusMessage reque
     #endif
 }
 
+/* names which stand for the template of a row, or for any row, rather than for one row */
+static bool _is_row_template_name(char const* name)
+{
+    return strchr(name, '*') != NULL || strstr(name, "{i}") != NULL;
+}
+
 static void _table_add_row_callback_handler (rbusHandle_t handle, rbusMessage request, rbusMessage* response)
 {
     struct _rbusHandle* handleInfo = (struct _rbusHandle*)handle;
@@ -2402,7 +2408,7 @@ static void _table_add_row_callback_handler (rbusHandle_t handle, rbusMessage re
     elementNode* tableRegElem = retrieveElement(handleInfo->elementRoot, tableName);
     elementNode* tableInstElem = retrieveInstanceElementEx(handle, handleInfo->elementRoot, tableName, true);
 
-    if(tableRegElem && tableInstElem)
+    if(tableRegElem && tableInstElem && tableInstElem->type == RBUS_ELEMENT_TYPE_TABLE && !_is_row_template_name(tableName))
     {
         if(tableRegElem->cbTable.tableAddRowHandler)
         {
@@ -2454,7 +2460,7 @@ static void _table_remove_row_callback_handler (rbusHandle_t handle, rbusMessage
     elementNode* rowRegElem = retrieveElement(handleInfo->elementRoot, rowName);
     elementNode* rowInstElem = retrieveInstanceElementEx(handle, handleInfo->elementRoot, rowName, true);
 
-    if(rowRegElem && rowInstElem)
+    if(rowRegElem && rowInstElem && !_is_row_template_name(rowName))
     {
         /*switch to the row's table */
         elementNode* tableRegElem = rowRegElem->parent;
@@ -4556,7 +4562,7 @@ rbusError_t rbusTable_addRow(
 
     RBUSLOG_DEBUG(" %s %s", tableName, aliasName);
 
-    if(tableName[strlen(tableName)-1] != dot)
+    if(tableName[0] == 0 || tableName[strlen(tableName)-1] != dot)
     {
         RBUSLOG_WARN("invalid table name %s", tableName);
         return RBUS_ERROR_INVALID_INPUT;
@@ -4694,7 +4700,7 @@ rbusError_t rbusTable_registerRow(
     if (handleInfo->m_handleType != RBUS_HWDL_TYPE_REGULAR)
         return RBUS_ERROR_INVALID_HANDLE;
 
-    rc = snprintf(rowName, RBUS_MAX_NAME_LENGTH, "%s%d", tableName, instNum);
+    rc = snprintf(rowName, RBUS_MAX_NAME_LENGTH, "%s%u", tableName, instNum);
     if(rc < 0 || rc >= RBUS_MAX_NAME_LENGTH)
     {
         RBUSLOG_WARN("invalid table name %s", tableName);
@@ -4710,7 +4716,7 @@ rbusError_t rbusTable_registerRow(
         return RBUS_ERROR_INVALID_INPUT;
     }
 
-    if(!tableInstElem)
+    if(!tableInstElem || tableInstElem->type != RBUS_ELEMENT_TYPE_TABLE || _is_row_template_name(tableName))
     {
         RBUSLOG_WARN("table does not exist %s", tableName);
         return RBUS_ERROR_INVALID_INPUT;
@@ -4735,7 +4741,7 @@ rbusError_t rbusTable_unregisterRow(
 
     elementNode* rowInstElem = retrieveInstanceElement(handleInfo->elementRoot, rowName);
 
-    if(!rowInstElem)
+    if(!rowInstElem || _is_row_template_name(rowName))
     {
         RBUSLOG_DEBUG("row does not exists %s", rowName);
         return RBUS_ERROR_INVALID_INPUT;
@@ -4815,7 +4821,7 @@ rbusError_t rbusTable_getRowNames(
 
                 rbusMessage_GetInt32(response, &instNum);
                 rbusMessage_GetString(response, &alias);
-                snprintf(fullName, RBUS_MAX_NAME_LENGTH, "%s%d.", tableName, instNum);
+                snprintf(fullName, RBUS_MAX_NAME_LENGTH, "%s%u.", tableName, (uint32_t)instNum);
                 tmpNames[i].name = strdup(fullName);
                 tmpNames[i].instNum = instNum;
                 tmpNames[i].alias = alias && alias[0] != '\0' ? strdup(alias) : NULL;
-- 
2.43.0


From 84d30cd3bdd26c92db57bfef3e0317c9e70ba763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:30 +0000
Subject: [PATCH 31/93] fix: malformed requests to add or remove rows or list
 names were answered from uninitialised memory

---
 src/rbus/rbus.c | 36 ++++++++++++++++++++++++++----------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index f2a80d6..95dfc6b 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -2245,8 +2245,13 @@ static void _get_parameter_names_handler (rbusHandle_t handle, rbusMessage reque
     //int32_t isCcsp = 0;
     elementNode* el = NULL;
     
-    rbusMessage_GetString(request, &objName);
-    rbusMessage_GetInt32(request, &requestedDepth);
+    if(rbusMessage_GetString(request, &objName) != RT_OK || objName == NULL || rbusMessage_GetInt32(request, &requestedDepth) != RT_OK)
+    {
+        RBUSLOG_WARN("malformed request for names");
+        rbusMessage_Init(response);
+        rbusMessage_SetInt32(*response, (int)RBUS_ERROR_INVALID_INPUT);
+        return;
+    }
     if(rbusMessage_GetInt32(request, &getRowNamesOnly) != RT_OK)/*set to 1 by rbusTable_GetRowNames and 0 by rbus_getNames, but unset by ccsp*/
     {
         //isCcsp = 1;
@@ -2390,14 +2395,20 @@ static void _table_add_row_callback_handler (rbusHandle_t handle, rbusMessage re
 {
     struct _rbusHandle* handleInfo = (struct _rbusHandle*)handle;
     rbusError_t result = RBUS_ERROR_BUS_ERROR;
-    int sessionId;
-    char const* tableName;
+    int sessionId = 0;
+    char const* tableName = NULL;
     char const* aliasName = NULL;
     int err;
     uint32_t instNum = 0;
 
-    rbusMessage_GetInt32(request, &sessionId);
-    rbusMessage_GetString(request, &tableName);
+    if(rbusMessage_GetInt32(request, &sessionId) != RT_OK || rbusMessage_GetString(request, &tableName) != RT_OK || tableName == NULL)
+    {
+        RBUSLOG_WARN("malformed request to add a row");
+        rbusMessage_Init(response);
+        rbusMessage_SetInt32(*response, RBUS_ERROR_INVALID_INPUT);
+        rbusMessage_SetInt32(*response, 0);
+        return;
+    }
     err = rbusMessage_GetString(request, &aliasName); /*this presumes rbus_updateTable sent the alias.  
                                                  if CCSP/dmcli is calling us, then this will be NULL*/
     if(err != RT_OK || (aliasName && strlen(aliasName)==0))
@@ -2448,11 +2459,16 @@ static void _table_remove_row_callback_handler (rbusHandle_t handle, rbusMessage
 {
     struct _rbusHandle* handleInfo = (struct _rbusHandle*)handle;
     rbusError_t result = RBUS_ERROR_BUS_ERROR;
-    int sessionId;
-    char const* rowName;
+    int sessionId = 0;
+    char const* rowName = NULL;
 
-    rbusMessage_GetInt32(request, &sessionId);
-    rbusMessage_GetString(request, &rowName);
+    if(rbusMessage_GetInt32(request, &sessionId) != RT_OK || rbusMessage_GetString(request, &rowName) != RT_OK || rowName == NULL)
+    {
+        RBUSLOG_WARN("malformed request to remove a row");
+        rbusMessage_Init(response);
+        rbusMessage_SetInt32(*response, RBUS_ERROR_INVALID_INPUT);
+        return;
+    }
 
     RBUSLOG_DEBUG("row [%s]", rowName);
 
-- 
2.43.0


From f5a2d2daef511590bb4437f6d61982f3ada33b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:05 +0000
Subject: [PATCH 32/93] fix: a multiple set was rolled back to values without a
 type

---
 src/rbus/rbus.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index 95dfc6b..d6d0b6d 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -1606,7 +1606,8 @@ static void _set_callback_handler (rbusHandle_t handle, rbusMessage request, rbu
                                 ELM_PRIVATE_LOCK(el);
                                 rc = el->cbTable.getHandler(handle, currentData, &options);
                                 ELM_PRIVATE_UNLOCK(el);
-                                if(rc != RBUS_ERROR_SUCCESS || !rbusProperty_GetValue(currentData))
+                                if(rc != RBUS_ERROR_SUCCESS || !rbusProperty_GetValue(currentData) ||
+                                   rbusValue_GetType(rbusProperty_GetValue(currentData)) == RBUS_NONE)
                                 {
                                     RBUSLOG_WARN("%s cannot be reverted as its current value is not available", paramName);
                                     rbusProperty_Release(currentData);
-- 
2.43.0


From 2c17e8524295b8947a2228c852cc4ad1e2c2cfa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:17 +0000
Subject: [PATCH 33/93] fix: a malformed request to invoke a method was handled
 from uninitialised memory

---
 src/rbus/rbus.c | 41 ++++++++++++++++++++++++++++-------------
 1 file changed, 28 insertions(+), 13 deletions(-)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index d6d0b6d..f78126a 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -2528,36 +2528,51 @@ static int _method_callback_handler(rbusHandle_t handle, rbusMessage request, rb
 {
     struct _rbusHandle* handleInfo = (struct _rbusHandle*)handle;
     rbusError_t result = RBUS_ERROR_BUS_ERROR;
-    int sessionId;
+    int sessionId = 0;
     int hasInParam = 0;
-    char const* methodName;
-    rbusObject_t inParams, outParams;
+    char const* methodName = NULL;
+    rbusObject_t inParams = NULL, outParams;
     rbusValue_t value1, value2;
     rbusValue_t outParamsVal = NULL;
+    elementNode* methRegElem = NULL;
+    elementNode* methInstElem = NULL;
+    bool malformed;
 
     rbusValue_Init(&value1);
     rbusValue_Init(&value2);
 
-    rbusMessage_GetInt32(request, &sessionId);
-    rbusMessage_GetString(request, &methodName);
-    rbusMessage_GetInt32(request, &hasInParam);
-    if (hasInParam)
+    malformed = rbusMessage_GetInt32(request, &sessionId) != RT_OK ||
+                rbusMessage_GetString(request, &methodName) != RT_OK || methodName == NULL ||
+                rbusMessage_GetInt32(request, &hasInParam) != RT_OK;
+    if (!malformed && hasInParam)
     {
-        rbusObject_initFromMessage(&inParams, request);
+        malformed = rbusObject_initFromMessage(&inParams, request) != RBUS_ERROR_SUCCESS;
     }
     else
     {
         rbusObject_Init(&inParams, NULL);
     }
 
-    RBUSLOG_DEBUG("%s [%s]", __FUNCTION__, methodName);
+    RBUSLOG_DEBUG("%s [%s]", __FUNCTION__, methodName ? methodName : "");
 
     rbusObject_Init(&outParams, NULL);
-    /*get the element for the row */
-    elementNode* methRegElem = retrieveElement(handleInfo->elementRoot, methodName);
-    elementNode* methInstElem = retrieveInstanceElementEx(handle, handleInfo->elementRoot, methodName, true);
+    if(!malformed)
+    {
+        /*get the element for the row */
+        methRegElem = retrieveElement(handleInfo->elementRoot, methodName);
+        methInstElem = retrieveInstanceElementEx(handle, handleInfo->elementRoot, methodName, true);
+    }
 
-    if(methRegElem && methInstElem)
+    if(malformed)
+    {
+        RBUSLOG_WARN("malformed request to invoke a method");
+        result = RBUS_ERROR_INVALID_INPUT;
+        rbusValue_SetInt32(value1, RBUS_ERROR_INVALID_INPUT);
+        rbusValue_SetString(value2, "RBUS_ERROR_INVALID_INPUT");
+        rbusObject_SetValue(outParams, "error_code", value1);
+        rbusObject_SetValue(outParams, "error_string", value2);
+    }
+    else if(methRegElem && methInstElem)
     {
         if(methRegElem->cbTable.methodHandler)
         {
-- 
2.43.0


From 71118b90ebd01e6a12738d5210b55884568fd563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:17 +0000
Subject: [PATCH 34/93] fix: an asynchronous method response without parameters
 leaked them or was malformed

---
 src/rbus/rbus.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index f78126a..4b23d4f 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -6348,8 +6348,20 @@ rbusError_t rbusMethod_SendAsyncResponse(
         rbusValue_SetString(value2, rbusError_ToString(error));
         rbusObject_SetValue(outParams, "error_code", value1);
         rbusObject_SetValue(outParams, "error_string", value2);
+        rbusObject_appendToMessage(outParams, response);
+        rbusObject_Release(outParams);
+    }
+    else if(outParams == NULL)
+    {
+        /*the caller expects an object, which may be empty*/
+        rbusObject_Init(&outParams, NULL);
+        rbusObject_appendToMessage(outParams, response);
+        rbusObject_Release(outParams);
+    }
+    else
+    {
+        rbusObject_appendToMessage(outParams, response);
     }
-    rbusObject_appendToMessage(outParams, response);
     rbus_sendResponse(&asyncHandle->hdr, response);
     rbusValue_Release(value1);
     rbusValue_Release(value2);
-- 
2.43.0


From bee44504b78ccc46eb847ab5ba6d4230d805d985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:17 +0000
Subject: [PATCH 35/93] fix: an asynchronous method call leaked its parameters
 when no thread could be started

---
 src/rbus/rbus.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index 4b23d4f..e5f5965 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -6315,6 +6315,9 @@ rbusError_t rbusMethod_InvokeAsync(
     if((err = pthread_create(&pid, NULL, rbusMethod_InvokeAsyncThreadFunc, data)) != 0)
     {
         RBUSLOG_ERROR("pthread_create failed: err=%d", err);
+        rbusObject_Release(inParams);
+        free(data->methodName);
+        free(data);
         return RBUS_ERROR_BUS_ERROR;
     }
 
-- 
2.43.0


From 9cae6122556aa4529e984d58d2c2030397742058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:17 +0000
Subject: [PATCH 36/93] fix: a malformed method response was taken for success

---
 src/rbus/rbus.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index e5f5965..d139dfb 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -6219,11 +6219,16 @@ rbusError_t rbusMethod_InvokeInternal(
     rbusMessage_GetInt32(response, &returnCode);
     legacyRetCode = (rbusLegacyReturn_t)returnCode;
 
-    rbusObject_initFromMessage(outParams, response);
+    err = rbusObject_initFromMessage(outParams, response) == RBUS_ERROR_SUCCESS ? RBUSCORE_SUCCESS : RBUSCORE_ERROR_MALFORMED_RESPONSE;
     if(legacyRetCode > RBUS_LEGACY_ERR_SUCCESS)
     {
         returnCode = CCSPError_to_rbusError(legacyRetCode);
     }
+    if(err != RBUSCORE_SUCCESS && returnCode == RBUS_ERROR_SUCCESS)
+    {
+        RBUSLOG_ERROR("rbusMethod Invoke for %s got a malformed response", methodName);
+        returnCode = rbusCoreError_to_rbusError(err);
+    }
 
     rbusMessage_Release(response);
 
-- 
2.43.0


From 8b5e5d6effad40d11a023bdba81b80fd741eb473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:03 +0000
Subject: [PATCH 37/93] fix: a method of table rows could be called on the
 template of the rows

---
 src/rbus/rbus.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index d139dfb..088aa6c 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -2556,7 +2556,7 @@ static int _method_callback_handler(rbusHandle_t handle, rbusMessage request, rb
     RBUSLOG_DEBUG("%s [%s]", __FUNCTION__, methodName ? methodName : "");
 
     rbusObject_Init(&outParams, NULL);
-    if(!malformed)
+    if(!malformed && !_is_row_template_name(methodName))
     {
         /*get the element for the row */
         methRegElem = retrieveElement(handleInfo->elementRoot, methodName);
-- 
2.43.0


From 44c630b16e46c31f04058371f030db499abf0752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:39 +0000
Subject: [PATCH 38/93] fix: the filter result for one subscriber was shown to
 other subscribers and left in the publisher's data

---
 src/rbus/rbus.c | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index 088aa6c..58b555b 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -6024,6 +6024,26 @@ rbusError_t  rbusEvent_PublishRawData(
     return rc;
 }
 
+/* a copy of an event's data which also tells a filtered subscriber whether its filter matches;
+   the data itself is shared with the publisher and with the other subscribers */
+static rbusObject_t rbusEvent_AddFilterResult(rbusObject_t data, bool matches)
+{
+    rbusObject_t copy = NULL;
+    rbusValue_t filterResult = NULL;
+    rbusProperty_t prop;
+
+    rbusObject_Init(&copy, rbusObject_GetName(data));
+    for(prop = rbusObject_GetProperties(data); prop; prop = rbusProperty_GetNext(prop))
+        rbusObject_SetValue(copy, rbusProperty_GetName(prop), rbusProperty_GetValue(prop));
+    rbusObject_SetChildren(copy, rbusObject_GetChildren(data));
+
+    rbusValue_Init(&filterResult);
+    rbusValue_SetBoolean(filterResult, matches);
+    rbusObject_SetValue(copy, "filter", filterResult);
+    rbusValue_Release(filterResult);
+    return copy;
+}
+
 rbusError_t  rbusEvent_Publish(
   rbusHandle_t          handle,
   rbusEvent_t*          eventData)
@@ -6078,6 +6098,8 @@ rbusError_t  rbusEvent_Publish(
     while(listItem)
     {
         bool publish = true;
+        rbusEvent_t event = *eventData;
+        rbusObject_t filteredData = NULL;
 
         rtListItem_GetData(listItem, (void**)&subscription);
         if(!subscription || !subscription->eventName || !subscription->listener)
@@ -6108,11 +6130,8 @@ rbusError_t  rbusEvent_Publish(
                 if(newResult != oldResult)
                 {
                     /*set 'filter' to true/false implying that either the filter has started or stopped matching*/
-                    rbusValue_t filterResult = NULL;
-                    rbusValue_Init(&filterResult);
-                    rbusValue_SetBoolean(filterResult, newResult != 0);
-                    rbusObject_SetValue(eventData->data, "filter", filterResult);
-                    rbusValue_Release(filterResult);                    
+                    filteredData = rbusEvent_AddFilterResult(eventData->data, newResult != 0);
+                    event.data = filteredData;
                 }
                 else
                 {
@@ -6126,7 +6145,7 @@ rbusError_t  rbusEvent_Publish(
             rbusMessage msg;
             rbusMessage_Init(&msg);
 
-            rbusEventData_appendToMessage(eventData, subscription->filter, subscription->interval, subscription->duration, subscription->componentId, msg);
+            rbusEventData_appendToMessage(&event, subscription->filter, subscription->interval, subscription->duration, subscription->componentId, msg);
 
             RBUSLOG_DEBUG("rbusEvent_Publish: publishing event %s to listener %s", subscription->eventName, subscription->listener);
 
@@ -6146,6 +6165,7 @@ rbusError_t  rbusEvent_Publish(
                 RBUSLOG_ERROR("rbusEvent_Publish failed: rbus_publishSubscriberEvent return error %d", err);
             }
         }
+        rbusObject_Release(filteredData);
         rtListItem_GetNext(listItem, &listItem);
     }
     HANDLE_SUBS_MUTEX_UNLOCK(handle);
-- 
2.43.0


From b4c6db5169ae65cea0cbf37bc750d007581b5e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:51 +0000
Subject: [PATCH 39/93] fix: registering a table row subscribed again those
 already subscribed to its events, and those of rows whose number starts with
 the same digits

---
 src/rbus/rbus_subscriptions.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rbus/rbus_subscriptions.c b/src/rbus/rbus_subscriptions.c
index 4b8a90f..4fe31d2 100644
--- a/src/rbus/rbus_subscriptions.c
+++ b/src/rbus/rbus_subscriptions.c
@@ -808,7 +808,9 @@ void rbusSubscriptions_resubscribeRowElementCache(rbusHandle_t handle, rbusSubsc
         {
             rtListItem next = NULL;
             rtListItem_GetNext(item, &next);
-            if(strncmp(sub->eventName, rowNode->fullName, strlen(rowNode->fullName)) == 0)
+            size_t len = strlen(rowNode->fullName);
+            if(sub->element == NULL && sub->tokens == NULL &&/*not already subscribed*/
+               strncmp(sub->eventName, rowNode->fullName, len) == 0 && sub->eventName[len] == '.')
             {
                 el = retrieveInstanceElement(handleInfo->elementRoot, sub->eventName);
                 if(el)
-- 
2.43.0


From f40fb42043d3fd35560aa0a6ae356cf7e64d3944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:51 +0000
Subject: [PATCH 40/93] fix: removing a table row removed subscriptions to
 other rows

---
 src/rbus/rbus_subscriptions.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rbus/rbus_subscriptions.c b/src/rbus/rbus_subscriptions.c
index 4fe31d2..6a29444 100644
--- a/src/rbus/rbus_subscriptions.c
+++ b/src/rbus/rbus_subscriptions.c
@@ -334,6 +334,7 @@ void rbusSubscriptions_onElementDeleted(rbusSubscriptions_t subscriptions, eleme
                     rtListItem_GetData(item, (void**)&sub);
 
                     rtList_GetFront(sub->instances, &item2);
+                    val = false;
 
                     /* go through all instances in this subscription */
                     while(item2)
@@ -344,7 +345,8 @@ void rbusSubscriptions_onElementDeleted(rbusSubscriptions_t subscriptions, eleme
                         {
                             rtList_RemoveItem(sub->instances, item2, NULL);
                             removeElementSubscription(child, sub);
-                            val = true;
+                            /* a subscription with a wildcard is not to this row alone */
+                            val = strchr(sub->eventName, '*') == NULL;
                             break;
                         }
                         rtListItem_GetNext(item2, &item2);
-- 
2.43.0


From d0774fa111303c6597049eb14ebf5209c982639a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:48 +0000
Subject: [PATCH 41/93] fix: subscriptions with a filter or an interval stayed
 when their client went away

---
 src/rbus/rbus_subscriptions.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rbus/rbus_subscriptions.c b/src/rbus/rbus_subscriptions.c
index 6a29444..d35449d 100644
--- a/src/rbus/rbus_subscriptions.c
+++ b/src/rbus/rbus_subscriptions.c
@@ -855,7 +855,7 @@ void rbusSubscriptions_handleClientDisconnect(rbusHandle_t handle, rbusSubscript
             el = retrieveInstanceElement(handleInfo->elementRoot, sub->eventName);
             if(el)
             {
-                subscribeHandlerImpl(handle, false, sub->element, sub->eventName, sub->listener, sub->componentId, 0, 0, 0, 0, 0);
+                subscribeHandlerImpl(handle, false, sub->element, sub->eventName, sub->listener, sub->componentId, sub->interval, sub->duration, sub->filter, sub->rawData, NULL);
             }
             else
             {
-- 
2.43.0


From 2edb0fc6bb89c46e2c04c06cea01ae5ccdd067a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:48 +0000
Subject: [PATCH 42/93] fix: when the provider could not tell the initial
 value, the answer to a subscription was malformed and leaked

---
 src/rbus/rbus.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index 58b555b..0998fa6 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -2733,7 +2733,6 @@ static void _subscribe_callback_handler (rbusHandle_t handle, rbusMessage reques
                 tmpptr= strchr(event_name, '*');
                 if(tmpptr)
                 {
-                    rbusProperty_t tmpProperties = NULL;
                     rbusProperty_Init(&tmpProperties, "numberOfEntries", NULL);
                     get_recursive_wildcard_handler(handleInfo, event_name,
                             "initialValue", tmpProperties, &actualCount);
@@ -2789,6 +2788,8 @@ static void _subscribe_callback_handler (rbusHandle_t handle, rbusMessage reques
                         ELM_PRIVATE_UNLOCK(el);
                         val = rbusProperty_GetValue(tmpProperties);
                         rbusObject_SetValue(data, "initialValue", val);
+                        if(err != RBUS_ERROR_SUCCESS)
+                            rbusMessage_SetInt32(*response, 0); /* No initial value returned, as get handler failed */
                     }
                     else
                     {
@@ -2805,8 +2806,8 @@ static void _subscribe_callback_handler (rbusHandle_t handle, rbusMessage reques
                     rbusMessage_SetInt32(*response, 1); /* Based on this value initial value will be published to the consumer in
                                                            rbusEvent_SubscribeWithRetries() function call */
                     rbusEventData_appendToMessage(&event, filter, interval, duration, componentId, *response);
-                    rbusProperty_Release(tmpProperties);
                 }
+                rbusProperty_Release(tmpProperties);
                 rbusObject_Release(data);
             }
             if(payload)
-- 
2.43.0


From 03033f270003b669937bedeafbffd4394492d3ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:59 +0000
Subject: [PATCH 43/93] fix: a topic with too many or too long parts overran
 the router's token buffers

---
 src/rtmessage/rtRoutingTree.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/rtmessage/rtRoutingTree.c b/src/rtmessage/rtRoutingTree.c
index 84230ab..783b717 100644
--- a/src/rtmessage/rtRoutingTree.c
+++ b/src/rtmessage/rtRoutingTree.c
@@ -113,7 +113,7 @@ static void freeTreeRoute(void* p)
 
 static int validateExpression(const char* expr)
 {
-    int token_count = 0;
+    int token_count = 1;
     int token_length = 0;
     int result = 0;
 
@@ -126,13 +126,14 @@ static int validateExpression(const char* expr)
 	       result = -1;
 	       break;
 	    }
-	    token_count++;
+	    if(*(expr + 1) != 0)/*a trailing dot starts no token*/
+	        token_count++;
 	}
         token_length++;
         expr++;	
     }
 
-    if((token_length > MAX_TOKEN_BUFFER_SIZE) || (token_count > MAX_TOKENS))
+    if((token_length >= MAX_TOKEN_BUFFER_SIZE) || (token_count > MAX_TOKENS))
     {
         result = -1;
     }
@@ -146,8 +147,13 @@ static void tokenizeExpression(const char* expression)
     const char* from = expression;
     char* to = workBuffer;
     workTokenCount = 0;
+    /*names come from other processes: one too long to be registered matches nothing*/
+    if(strnlen(expression, MAX_TOKEN_BUFFER_SIZE) == MAX_TOKEN_BUFFER_SIZE)
+        return;
     while(*from)
     {
+        if(i == MAX_TOKENS)
+            return;
         workTokens[i].name = to;
         
         while(*from && *from != '.')
-- 
2.43.0


From bd6792eeb35ab6af60ee4af4dfa6d0ecc14bf3c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:59 +0000
Subject: [PATCH 44/93] fix: a topic which is no row of a table was routed to
 the table, and removing it removed the table's topic

---
 src/rtmessage/rtRoutingTree.c | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/rtmessage/rtRoutingTree.c b/src/rtmessage/rtRoutingTree.c
index 783b717..fce3857 100644
--- a/src/rtmessage/rtRoutingTree.c
+++ b/src/rtmessage/rtRoutingTree.c
@@ -239,12 +239,9 @@ static rtTreeTopic* getChildByName(rtRoutingTree rt, rtTreeTopic* parent, const
             return treeTopic;
         }
         /* Registration of property element as sibling to a table and vice versa not supported as per TR369/TR181 standard.*/
-        else if (treeTopic->name[0] == '{' || name[0] == '{')
+        else if (error && (treeTopic->name[0] == '{' || name[0] == '{'))
         {
-            if (error)
-            {
-                *error = 1;
-            }
+            *error = 1;
             return treeTopic;
         }
         rtListItem_GetNext(item, &item);
-- 
2.43.0


From 3ccd933b9a70636aefc65ac755dd1a469a7d3e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:59 +0000
Subject: [PATCH 45/93] fix: a topic could not be registered again after its
 owner went away while topics below it remained

---
 src/rtmessage/rtRoutingTree.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rtmessage/rtRoutingTree.c b/src/rtmessage/rtRoutingTree.c
index fce3857..05ce5c0 100644
--- a/src/rtmessage/rtRoutingTree.c
+++ b/src/rtmessage/rtRoutingTree.c
@@ -518,7 +518,9 @@ rtError rtRoutingTree_AddTopicRoute(rtRoutingTree rt, const char* topicPath, con
         }
     }
 
-    if (err_on_dup && (0 == isCreated) && (topic->routeList) && (0 != strcmp (topicPath, "_RTROUTED.ADVISORY")))
+    size_t numRoutes = 0;
+    rtList_GetSize(topic->routeList, &numRoutes);/*the list stays, empty, when its last route goes*/
+    if (err_on_dup && (0 == isCreated) && (numRoutes != 0) && (0 != strcmp (topicPath, "_RTROUTED.ADVISORY")))
     {
         /* Controlled Error log will be printed in rtrouted */
         rtLog_Debug("Rejecting a duplicate registraion");
-- 
2.43.0


From 1661945f39a1aab5185b3e13f37503a6e776e0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:24 +0000
Subject: [PATCH 46/93] fix: removing a topic removed the topics of others
 below it, and left its route on the paths above it

---
 src/rtmessage/rtRoutingTree.c | 99 ++++++++++++++++++++++++-----------
 1 file changed, 68 insertions(+), 31 deletions(-)

diff --git a/src/rtmessage/rtRoutingTree.c b/src/rtmessage/rtRoutingTree.c
index 05ce5c0..7489645 100644
--- a/src/rtmessage/rtRoutingTree.c
+++ b/src/rtmessage/rtRoutingTree.c
@@ -167,37 +167,84 @@ static void tokenizeExpression(const char* expression)
     workTokenCount = i;
 }
 
+static int hasPointer(rtList list, void* ptr)
+{
+    rtListItem item;
+    rtList_GetFront(list, &item);
+    while(item)
+    {
+        void* ptr2;
+        rtListItem_GetData(item, &ptr2);
+        if(ptr == ptr2)
+            return 1;
+        rtListItem_GetNext(item, &item);
+    }
+    return 0;
+}
+
+/*undo optimizeTopicsBackpropagate, as far up as the route has nothing else below*/
+static void removeRouteFromParents(rtTreeTopic* topic, rtTreeRoute* route)
+{
+    rtTreeTopic* parent = topic->parent;
+    while(parent && parent->parent)
+    {
+        rtListItem item;
+        rtList_GetFront(parent->childList, &item);
+        while(item)
+        {
+            rtTreeTopic* child;
+            rtListItem_GetData(item, (void**)&child);
+            if((child->routeList && hasPointer(child->routeList, route)) ||
+               (child->routeList2 && hasPointer(child->routeList2, route)))
+                return;
+            rtListItem_GetNext(item, &item);
+        }
+        rtList_RemoveItemByCompare(parent->routeList2, route, rtList_ComparePointer, NULL);
+        parent = parent->parent;
+    }
+}
+
+/*remove the routes of a topic, but not those of the topics below*/
 static void removeTopicFromRoutes(rtRoutingTree rt, rtTreeTopic* topic)
 {
-    rtListItem childItem;
-    rtTreeTopic* childTopic;
-    rtListItem routeItem;
+    rtListItem routeItem = NULL;
     rtTreeRoute* route;
     size_t size;
-    rtList_GetFront(topic->routeList, &routeItem);
+    if(topic->routeList)
+        rtList_GetFront(topic->routeList, &routeItem);
     while(routeItem)
     {
         rtListItem_GetData(routeItem, (void**)&route);
+        rtList_RemoveItem(topic->routeList, routeItem, NULL);
 
         rtList_RemoveItemByCompare(route->topicList, topic, rtList_ComparePointer, NULL);
+        removeRouteFromParents(topic, route);
         /*if the route's topicList has become empty, then remove the whole route*/
         rtList_GetSize(route->topicList, &size);
         if(size == 0)
             rtList_RemoveItemByCompare(rt->routeList, route, rtList_ComparePointer, freeTreeRoute);
 
-        rtListItem_GetNext(routeItem, &routeItem);
+        rtList_GetFront(topic->routeList, &routeItem);
     }
 
-    rtList_GetFront(topic->childList, &childItem);
-    while(childItem)
+    /*remove the topic and those above it if nothing is left of them*/
+    while(topic->parent)
     {
-        rtListItem_GetData(childItem, (void**)&childTopic);
-        removeTopicFromRoutes(rt, childTopic);
-        rtListItem_GetNext(childItem, &childItem);
+        rtTreeTopic* parent = topic->parent;
+        size_t numChildren = 0;
+        size = 0;
+        if(topic->childList)
+            rtList_GetSize(topic->childList, &numChildren);
+        if(topic->routeList)
+            rtList_GetSize(topic->routeList, &size);
+        if(numChildren != 0 || size != 0)
+            break;
+        rtList_RemoveItemByCompare(parent->childList, topic, rtList_ComparePointer, freeTreeTopic);
+        topic = parent;
     }
 }
 
-static rtTreeTopic* getChildByName(rtRoutingTree rt, rtTreeTopic* parent, const char* name, int create, int* created, int *error, int remove)
+static rtTreeTopic* getChildByName(rtTreeTopic* parent, const char* name, int create, int* created, int *error, int exact)
 {
     rtListItem item;
 
@@ -211,13 +258,6 @@ static rtTreeTopic* getChildByName(rtRoutingTree rt, rtTreeTopic* parent, const
         rtListItem_GetData(item, (void**)&treeTopic);
         if(strcmp(treeTopic->name, name) == 0)
         {
-            /* we can remove if its an exact match*/
-            if(remove)
-            {
-              removeTopicFromRoutes(rt, treeTopic);
-              rtList_RemoveItem(parent->childList, item, freeTreeTopic);
-              return NULL;
-            }
             return treeTopic;
         }
         /* if a query contains a row instance id, a square bracket alias, or wildcard * 
@@ -232,10 +272,9 @@ static rtTreeTopic* getChildByName(rtRoutingTree rt, rtTreeTopic* parent, const
            If a user ever tries to use { or [ or * as anything other then table register, alias, wildcard, then
            the following line will have to be modified.
         */
-        else if(treeTopic->name[0] == '{' && (isdigit(name[0]) || name[0] == '[' || name[0] == '*'))
+        else if(!exact && treeTopic->name[0] == '{' && (isdigit(name[0]) || name[0] == '[' || name[0] == '*'))
         {
-            /* note that we don't handle the remove flag here because you should never create or remove instance ids themselves in the tree
-               however, as a safeguard we only do remove in the above branch when name is an exact match*/
+            /* not if an exact match is wanted, because you should never remove instance ids themselves in the tree */
             return treeTopic;
         }
         /* Registration of property element as sibling to a table and vice versa not supported as per TR369/TR181 standard.*/
@@ -510,7 +549,7 @@ rtError rtRoutingTree_AddTopicRoute(rtRoutingTree rt, const char* topicPath, con
     int error = 0;
     for(i = 0; i < workTokenCount; ++i)
     {
-        topic = getChildByName(rt, topic, workTokens[i].name, 1/*create missing topic*/, &isCreated, &error, 0);
+        topic = getChildByName(topic, workTokens[i].name, 1/*create missing topic*/, &isCreated, &error, 0);
         if (error)
         {
             rtLog_Debug("Rejecting data registraion as per standard");
@@ -553,7 +592,7 @@ void rtRoutingTree_GetTopicRoutes(rtRoutingTree rt, const char* topic, rtList* r
 
     for(i = 0; i < workTokenCount; ++i)
     {
-        treeTopic = getChildByName(rt, treeTopic, workTokens[i].name, 0, NULL, NULL, 0);
+        treeTopic = getChildByName(treeTopic, workTokens[i].name, 0, NULL, NULL, 0);
 
         if(!treeTopic)
             return;
@@ -617,12 +656,9 @@ void rtRoutingTree_GetTopicRoutes(rtRoutingTree rt, const char* topic, rtList* r
           However, "Foo" doesn't have the route.  "Foo.{i}" has the route we want.
           So we need to search for the "{i}" child here and use its route.
         */
-        rtTreeTopic* curlyChild = getChildByName(rt, treeTopic, "{i}", 0, NULL, NULL, 0);
-        if(curlyChild)
-        {
-          *routes = curlyChild->routeList;
-        }
-        /*if we didn't find one then we are in some error scenario so just leave route null*/
+        rtTreeTopic* curlyChild = getChildByName(treeTopic, "{i}", 0, NULL, NULL, 0);
+        /*if we didn't find one then the table is gone and this may be an ordinary topic*/
+        *routes = curlyChild ? curlyChild->routeList : treeTopic->routeList;
     }
     else
     {
@@ -674,11 +710,12 @@ void rtRoutingTree_RemoveTopic(rtRoutingTree rt, const char* topic)
 
     for(i = 0; i < workTokenCount; ++i)
     {
-        treeTopic = getChildByName(rt, treeTopic, workTokens[i].name, 0, NULL, NULL, i == workTokenCount-1);
+        treeTopic = getChildByName(treeTopic, workTokens[i].name, 0, NULL, NULL, 1);
 
         if(!treeTopic)
             return;
     }
+    removeTopicFromRoutes(rt, treeTopic);
 }
 
 void rtRoutingTree_ResolvePartialPath(rtRoutingTree rt, const char* partialPath, rtList topics)
@@ -692,7 +729,7 @@ void rtRoutingTree_ResolvePartialPath(rtRoutingTree rt, const char* partialPath,
 
     for(i = 0; i < workTokenCount; ++i)
     {
-        treeTopic = getChildByName(rt, treeTopic, workTokens[i].name, 0, NULL, NULL, 0);
+        treeTopic = getChildByName(treeTopic, workTokens[i].name, 0, NULL, NULL, 0);
         
         if(!treeTopic)
             return;
-- 
2.43.0


From 146cc271b2966e6b2a9c774833b95a9db321c63c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:27 +0000
Subject: [PATCH 47/93] fix: a route registered twice for a topic was left
 dangling there when it went away

---
 src/rtmessage/rtRoutingTree.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rtmessage/rtRoutingTree.c b/src/rtmessage/rtRoutingTree.c
index 7489645..855eae2 100644
--- a/src/rtmessage/rtRoutingTree.c
+++ b/src/rtmessage/rtRoutingTree.c
@@ -569,7 +569,7 @@ rtError rtRoutingTree_AddTopicRoute(rtRoutingTree rt, const char* topicPath, con
     if(!topic->routeList)
         rtList_Create(&topic->routeList);
 
-    rtList_PushBack(topic->routeList, route, NULL);
+    addPointerToListOnce(topic->routeList, route);/*a route is removed from here only once*/
 
     addPointerToListOnce(route->topicList, topic);
 
-- 
2.43.0


From 2aba2de5c78efcfef1bb158c1fc63953ffa4e491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:54 +0000
Subject: [PATCH 48/93] fix: parsing a JSON message read past the end of the
 bytes received

---
 src/rtmessage/rtMessage.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/rtmessage/rtMessage.c b/src/rtmessage/rtMessage.c
index 248ea30..b1c9640 100644
--- a/src/rtmessage/rtMessage.c
+++ b/src/rtmessage/rtMessage.c
@@ -102,8 +102,6 @@ rtMessage_Clone(rtMessage const message, rtMessage* copy)
 rtError
 rtMessage_FromBytes(rtMessage* message, uint8_t const* bytes, int n)
 {
-  (void) n;
-
   #if 0
   printf("------------------------------------------\n")
   for (i = 0; i < 256; ++i)
@@ -120,7 +118,17 @@ rtMessage_FromBytes(rtMessage* message, uint8_t const* bytes, int n)
   *message = (rtMessage) rt_try_malloc(sizeof(struct _rtMessage));
   if(!*message)
     return rtErrorFromErrno(ENOMEM);
-  (*message)->json = cJSON_Parse((char *) bytes);
+  // the bytes are not terminated, and what follows them is not part of the message
+  char* text = (n >= 0) ? (char *) rt_try_malloc((size_t) n + 1) : NULL;
+  (*message)->json = NULL;
+  if (text)
+  {
+    if (n > 0)
+      memcpy(text, bytes, n);
+    text[n] = 0;
+    (*message)->json = cJSON_Parse(text);
+    free(text);
+  }
   if (!(*message)->json)
   {
     free(*message);
-- 
2.43.0


From bf9fbfa06e808b93e60bfad38120d5decadad6c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:54 +0000
Subject: [PATCH 49/93] fix: a subscribe message which is no JSON crashed the
 router

---
 src/rtmessage/rtrouted.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rtmessage/rtrouted.c b/src/rtmessage/rtrouted.c
index 6c3b96b..80a46d5 100644
--- a/src/rtmessage/rtrouted.c
+++ b/src/rtmessage/rtrouted.c
@@ -814,8 +814,8 @@ rtRouted_OnMessageSubscribe(rtConnectedClient* sender, rtMessageHeader* hdr, uin
       rtLog_Warn("Bad subscription message from %s", sender->ident);
       rc = RT_ERROR_INVALID_ARG;
     }
+    rtMessage_Release(m);
   }
-  rtMessage_Release(m);
 
   /* Send Response */
   if(hdr->flags & rtMessageFlags_Request)
-- 
2.43.0


From 5101462a7ceb3ff81b9240fdc999a1e896e89378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:54 +0000
Subject: [PATCH 50/93] fix: a malformed diagnostics message crashed the router

---
 src/rtmessage/rtrouted.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/rtmessage/rtrouted.c b/src/rtmessage/rtrouted.c
index 80a46d5..cb4af0c 100644
--- a/src/rtmessage/rtrouted.c
+++ b/src/rtmessage/rtrouted.c
@@ -1155,11 +1155,22 @@ static void
 rtRouted_OnMessageDiagnostics(rtConnectedClient* sender, rtMessageHeader* hdr, uint8_t const* buff, int n)
 {
   rtMessage msg;
-  const char * cmd;
+  const char * cmd = NULL;
 
-  rtMessage_FromBytes(&msg, buff, n);
+  if(RT_OK != rtMessage_FromBytes(&msg, buff, n))
+  {
+    rtLog_Warn("Bad diagnostics message");
+    rtLog_Warn("Sender %s", sender->ident);
+    return;
+  }
 
   rtMessage_GetString(msg, RTROUTER_DIAG_CMD_KEY, &cmd);
+  if(NULL == cmd)
+  {
+    rtLog_Warn("No command in diagnostics message");
+    rtMessage_Release(msg);
+    return;
+  }
 
   if(0 == strncmp(RTROUTER_DIAG_CMD_ENABLE_VERBOSE_LOGS, cmd, sizeof(RTROUTER_DIAG_CMD_ENABLE_VERBOSE_LOGS)))
     rtLog_SetLevel(RT_LOG_DEBUG);
-- 
2.43.0


From 3da9ae1b06b32abcb571ce6a6c39dc63d2838e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:54 +0000
Subject: [PATCH 51/93] fix: a message whose header claimed impossible lengths
 overran the reader's buffer

---
 src/rtmessage/rtrouteBase.c | 11 +++++++++++
 src/rtmessage/rtrouteBase.h |  3 +++
 src/rtmessage/rtrouted.c    | 11 +++++++++++
 3 files changed, 25 insertions(+)

diff --git a/src/rtmessage/rtrouteBase.c b/src/rtmessage/rtrouteBase.c
index 5f8bd67..4ee133f 100644
--- a/src/rtmessage/rtrouteBase.c
+++ b/src/rtmessage/rtrouteBase.c
@@ -387,6 +387,12 @@ rtConnectedClient_Read(rtConnectedClient* clnt, rtRouteEntry* myDirectRoute)
           break;
         }
         rtEncoder_DecodeUInt16(&itr, &header_length);
+        if((header_length <= RTMESSAGEHEADER_PREAMBLE_LENGTH) || (header_length > clnt->read_buffer_capacity))
+        {
+          rtLog_Warn("Bad header length in message from %s", clnt->ident);
+          rtConnectedClient_Reset(clnt);
+          break;
+        }
         clnt->bytes_to_read += (header_length - RTMESSAGEHEADER_PREAMBLE_LENGTH);
         clnt->state = rtConnectionState_ReadHeader;
       }
@@ -407,6 +413,11 @@ rtConnectedClient_Read(rtConnectedClient* clnt, rtRouteEntry* myDirectRoute)
         if(clnt->header.flags & rtMessageFlags_Tainted)
           clock_gettime(CLOCK_MONOTONIC, &g_entry_exit_timestamps[g_timestamp_index][0]);
 #endif
+        if(clnt->header.payload_length > RTMSG_MAX_PAYLOAD_LENGTH)
+        {
+          rtLog_Warn("Message of %u bytes from %s is too long. Closing the connection.", clnt->header.payload_length, clnt->ident);
+          return RT_ERROR_PROTOCOL_ERROR;
+        }
         clnt->bytes_to_read += clnt->header.payload_length;
         clnt->state = rtConnectionState_ReadPayload;
         int incoming_data_size = clnt->bytes_to_read + clnt->bytes_read;
diff --git a/src/rtmessage/rtrouteBase.h b/src/rtmessage/rtrouteBase.h
index 389888a..cfd4a15 100644
--- a/src/rtmessage/rtrouteBase.h
+++ b/src/rtmessage/rtrouteBase.h
@@ -1,6 +1,7 @@
 #ifndef __RTROUTEBASE_H__
 #define __RTROUTEBASE_H__
 
+#include <limits.h>
 #include "rtError.h"
 #include "rtCipher.h"
 #include "rtMessageHeader.h"
@@ -24,6 +25,8 @@
 
 
 #define RTMSG_INVALID_FD -1
+/*header, payload and what was read of them are counted by an int*/
+#define RTMSG_MAX_PAYLOAD_LENGTH (INT_MAX - (1024 * 256))
 #define RTMSG_MAX_EXPRESSION_LEN 128
 #define RTMSG_ADDR_MAX 128
 #define RTMSG_MAX_LISTENING_SOCKETS 5
diff --git a/src/rtmessage/rtrouted.c b/src/rtmessage/rtrouted.c
index cb4af0c..37cd6d3 100644
--- a/src/rtmessage/rtrouted.c
+++ b/src/rtmessage/rtrouted.c
@@ -1577,6 +1577,12 @@ rtConnectedClient_Read(rtConnectedClient* clnt)
           break;
         }
         rtEncoder_DecodeUInt16(&itr, &header_length);
+        if((header_length <= RTMESSAGEHEADER_PREAMBLE_LENGTH) || (header_length > clnt->read_buffer_capacity))
+        {
+          rtLog_Warn("Bad header length in message from %s - %s", clnt->ident, rtRouted_GetClientName(clnt));
+          rtConnectedClient_Reset(clnt);
+          break;
+        }
         clnt->bytes_to_read += (header_length - RTMESSAGEHEADER_PREAMBLE_LENGTH);
         clnt->state = rtConnectionState_ReadHeader;
       }
@@ -1597,6 +1603,11 @@ rtConnectedClient_Read(rtConnectedClient* clnt)
         if(clnt->header.flags & rtMessageFlags_Tainted)
           clock_gettime(CLOCK_MONOTONIC, &g_entry_exit_timestamps[g_timestamp_index][0]);
 #endif
+        if(clnt->header.payload_length > RTMSG_MAX_PAYLOAD_LENGTH)
+        {
+          rtLog_Warn("Message of %u bytes from %s - %s is too long. Closing the connection.", clnt->header.payload_length, clnt->ident, rtRouted_GetClientName(clnt));
+          return RT_ERROR_PROTOCOL_ERROR;
+        }
         clnt->bytes_to_read += clnt->header.payload_length;
         clnt->state = rtConnectionState_ReadPayload;
         int incoming_data_size = clnt->bytes_to_read + clnt->bytes_read;
-- 
2.43.0


From 43f30d8fb8f10385a795da35491848228a66e271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:54 +0000
Subject: [PATCH 52/93] fix: a message without payload was taken for the end of
 the connection

---
 src/rtmessage/rtrouteBase.c | 4 +++-
 src/rtmessage/rtrouted.c    | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/rtmessage/rtrouteBase.c b/src/rtmessage/rtrouteBase.c
index 4ee133f..7f6ce0b 100644
--- a/src/rtmessage/rtrouteBase.c
+++ b/src/rtmessage/rtrouteBase.c
@@ -439,8 +439,10 @@ rtConnectedClient_Read(rtConnectedClient* clnt, rtRouteEntry* myDirectRoute)
           }
         }
       }
+      if((clnt->state != rtConnectionState_ReadPayload) || (clnt->header.payload_length != 0))
+        break;
     }
-    break;
+    /* fall through: a message without payload is complete already */
 
     case rtConnectionState_ReadPayload:
     {
diff --git a/src/rtmessage/rtrouted.c b/src/rtmessage/rtrouted.c
index 37cd6d3..5873112 100644
--- a/src/rtmessage/rtrouted.c
+++ b/src/rtmessage/rtrouted.c
@@ -1629,8 +1629,10 @@ rtConnectedClient_Read(rtConnectedClient* clnt)
           }
         }
       }
+      if((clnt->state != rtConnectionState_ReadPayload) || (clnt->header.payload_length != 0))
+        break;
     }
-    break;
+    /* fall through: a message without payload is complete already */
 
     case rtConnectionState_ReadPayload:
     {
-- 
2.43.0


From 00adb04498455cb356157a36073a53e4bc95fcd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:54 +0000
Subject: [PATCH 53/93] fix: a request asking for its answer to be sent to the
 router itself crashed the router

---
 src/rtmessage/rtrouted.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rtmessage/rtrouted.c b/src/rtmessage/rtrouted.c
index 5873112..ff6bc58 100644
--- a/src/rtmessage/rtrouted.c
+++ b/src/rtmessage/rtrouted.c
@@ -500,7 +500,7 @@ rtRouted_SendMessage(rtMessageHeader * request_hdr, rtMessage message, rtConnect
       rtListItem_GetData(item, (void**)&treeRoute);
       rtListItem_GetNext(item, &item);
       route = treeRoute->route;
-      if(route)
+      if(route && route->subscription)
       {
         rtLog_Debug("SendMessage topic=%s expression=%s", request_hdr->topic, route->expression);
         found_dest = 1;
-- 
2.43.0


From 7a729af5451b531f1da0400fd11218643def7ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:54 +0000
Subject: [PATCH 54/93] fix: a header whose length disagreed with its contents
 was completed with bytes of earlier messages

---
 src/rtmessage/rtMessageHeader.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rtmessage/rtMessageHeader.c b/src/rtmessage/rtMessageHeader.c
index 09d8551..da3c1a2 100644
--- a/src/rtmessage/rtMessageHeader.c
+++ b/src/rtmessage/rtMessageHeader.c
@@ -130,6 +130,8 @@ rtMessageHeader_Decode(rtMessageHeader* hdr, uint8_t const* buff)
   rtEncoder_DecodeUInt16(&ptr, &marker);
   if(RTMSG_HEADER_MARKER != marker)
     return RT_ERROR;
+  if(ptr - buff != hdr->header_length)/*parts of it were never received, or are part of the payload*/
+    return RT_ERROR;
   return RT_OK;
 }
 
-- 
2.43.0


From 1e470493a21f31e034320dfa32906a17ebac5456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:25 +0000
Subject: [PATCH 55/93] fix: a subscription the routing tree refused was
 reported to have succeeded

---
 src/rtmessage/rtrouted.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/rtmessage/rtrouted.c b/src/rtmessage/rtrouted.c
index ff6bc58..c6fd707 100644
--- a/src/rtmessage/rtrouted.c
+++ b/src/rtmessage/rtrouted.c
@@ -364,6 +364,9 @@ rtRouted_ParseConfig(char const* fname)
   return RT_OK;
 }
 
+static rtError
+rtRouted_ClearRoute(rtRouteEntry * route);
+
 static rtError
 rtRouted_AddRoute(rtRouteMessageHandler handler, char const* exp, rtSubscription* subscription)
 {
@@ -373,8 +376,10 @@ rtRouted_AddRoute(rtRouteMessageHandler handler, char const* exp, rtSubscription
   rtString_Copy(route->expression, exp, RTMSG_MAX_EXPRESSION_LEN);
   rtVector_PushBack(gRoutes, route);
   rtLog_Debug("AddRoute route=[%p] address=[%s] expression=[%s]", route, subscription->client->ident, exp);
-  rtRoutingTree_AddTopicRoute(gRoutingTree, exp, (void *)route, 0/*ignfore duplicate entry*/);
-  return RT_OK;
+  rtError rc = rtRoutingTree_AddTopicRoute(gRoutingTree, exp, (void *)route, 0/*ignfore duplicate entry*/);
+  if (RT_OK != rc)
+    rtRouted_ClearRoute(route);
+  return rc;
 }
 
 static bool
@@ -779,7 +784,7 @@ rtRouted_OnMessageSubscribe(rtConnectedClient* sender, rtMessageHeader* hdr, uin
           subscription->client = sender;
           rc = rtRouted_AddRoute(rtRouted_ForwardMessage, expression, subscription);
 
-          if(strstr(expression, ".INBOX.") && sender->inbox[0] == '\0')
+          if((RT_OK == rc) && strstr(expression, ".INBOX.") && sender->inbox[0] == '\0')
           {
             rtString_Copy(sender->inbox, expression, RTMSG_HEADER_MAX_TOPIC_LENGTH);
             rtLog_Debug("init client inbox to %s", sender->inbox);
-- 
2.43.0


From f65a1ad8ae03c7a0689d88d6a38214b1d175dbbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:25 +0000
Subject: [PATCH 56/93] fix: a client could unregister the names of other
 clients and of the router itself

---
 src/rtmessage/rtRoutingTree.c | 32 ++++++++++++++++++++++++++------
 src/rtmessage/rtRoutingTree.h |  1 +
 src/rtmessage/rtrouted.c      |  7 ++++++-
 3 files changed, 33 insertions(+), 7 deletions(-)

diff --git a/src/rtmessage/rtRoutingTree.c b/src/rtmessage/rtRoutingTree.c
index 855eae2..8ebccff 100644
--- a/src/rtmessage/rtRoutingTree.c
+++ b/src/rtmessage/rtRoutingTree.c
@@ -204,8 +204,8 @@ static void removeRouteFromParents(rtTreeTopic* topic, rtTreeRoute* route)
     }
 }
 
-/*remove the routes of a topic, but not those of the topics below*/
-static void removeTopicFromRoutes(rtRoutingTree rt, rtTreeTopic* topic)
+/*remove the routes of a topic (or just one of them), but not those of the topics below*/
+static void removeTopicFromRoutes(rtRoutingTree rt, rtTreeTopic* topic, const rtTreeRoute* only)
 {
     rtListItem routeItem = NULL;
     rtTreeRoute* route;
@@ -215,6 +215,11 @@ static void removeTopicFromRoutes(rtRoutingTree rt, rtTreeTopic* topic)
     while(routeItem)
     {
         rtListItem_GetData(routeItem, (void**)&route);
+        if(only && route != only)
+        {
+            rtListItem_GetNext(routeItem, &routeItem);
+            continue;
+        }
         rtList_RemoveItem(topic->routeList, routeItem, NULL);
 
         rtList_RemoveItemByCompare(route->topicList, topic, rtList_ComparePointer, NULL);
@@ -697,13 +702,11 @@ void rtRoutingTree_RemoveRoute(rtRoutingTree rt, const void* route)
     rtList_RemoveItem(rt->routeList, routeItem, freeTreeRoute);
 }
 
-void rtRoutingTree_RemoveTopic(rtRoutingTree rt, const char* topic)
+static void removeTopic(rtRoutingTree rt, const char* topic, const rtTreeRoute* only)
 {
     int i;
     rtTreeTopic* treeTopic = rt->topicRoot;
 
-    rtLog_Debug("%s topic=%s", __FUNCTION__, topic);
-
     tokenizeExpression(topic);
     if(workTokenCount == 0)
         return;
@@ -715,7 +718,24 @@ void rtRoutingTree_RemoveTopic(rtRoutingTree rt, const char* topic)
         if(!treeTopic)
             return;
     }
-    removeTopicFromRoutes(rt, treeTopic);
+    removeTopicFromRoutes(rt, treeTopic, only);
+}
+
+void rtRoutingTree_RemoveTopic(rtRoutingTree rt, const char* topic)
+{
+    rtLog_Debug("%s topic=%s", __FUNCTION__, topic);
+
+    removeTopic(rt, topic, NULL);
+}
+
+void rtRoutingTree_RemoveTopicRoute(rtRoutingTree rt, const char* topic, const void* route)
+{
+    rtTreeRoute* treeRoute = getTreeRoute(rt, route, NULL);
+
+    rtLog_Debug("%s topic=%s route=%p", __FUNCTION__, topic, route);
+
+    if(treeRoute)
+        removeTopic(rt, topic, treeRoute);
 }
 
 void rtRoutingTree_ResolvePartialPath(rtRoutingTree rt, const char* partialPath, rtList topics)
diff --git a/src/rtmessage/rtRoutingTree.h b/src/rtmessage/rtRoutingTree.h
index 1ba21a1..0b1287c 100644
--- a/src/rtmessage/rtRoutingTree.h
+++ b/src/rtmessage/rtRoutingTree.h
@@ -158,6 +158,7 @@ void rtRoutingTree_GetTopicRoutes(rtRoutingTree rt, const char* topic, rtList* r
 void rtRoutingTree_GetRouteTopics(rtRoutingTree rt, const void* route, rtList* topics);
 void rtRoutingTree_RemoveRoute(rtRoutingTree rt, const void* route);
 void rtRoutingTree_RemoveTopic(rtRoutingTree rt, const char* topic);
+void rtRoutingTree_RemoveTopicRoute(rtRoutingTree rt, const char* topic, const void* route);
 void rtRoutingTree_ResolvePartialPath(rtRoutingTree rt, const char* partialPath, rtList topics);
 void rtRoutingTree_LogStats(rtRoutingTree rt);
 void rtRoutingTree_LogTopicTree(rtRoutingTree rt);
diff --git a/src/rtmessage/rtrouted.c b/src/rtmessage/rtrouted.c
index c6fd707..f75d983 100644
--- a/src/rtmessage/rtrouted.c
+++ b/src/rtmessage/rtrouted.c
@@ -810,7 +810,12 @@ rtRouted_OnMessageSubscribe(rtConnectedClient* sender, rtMessageHeader* hdr, uin
         {
           //Not a route. Is it an alias?
           rtLog_Debug("Removing alias %s", expression);
-          rtRoutingTree_RemoveTopic(gRoutingTree, expression);
+          for (i = 0; i < rtVector_Size(gRoutes); i++)
+          {
+            rtRouteEntry* route = (rtRouteEntry *) rtVector_At(gRoutes, i);
+            if((route->subscription) && (route->subscription->client == sender))
+              rtRoutingTree_RemoveTopicRoute(gRoutingTree, expression, route);
+          }
         }
       }
     }
-- 
2.43.0


From 94caf5a082fd261085119e1d518b76b43500f123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:48 +0000
Subject: [PATCH 57/93] fix: a tcp address with a long host name overran a
 buffer

---
 src/rtmessage/rtSocket.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/rtmessage/rtSocket.c b/src/rtmessage/rtSocket.c
index b3b9f93..825f2fe 100644
--- a/src/rtmessage/rtSocket.c
+++ b/src/rtmessage/rtSocket.c
@@ -196,6 +196,11 @@ rtSocketStorage_FromString(struct sockaddr_storage* ss, char const* addr)
     return RT_ERROR_INVALID_ARG;
   }
 
+  if ((size_t)(p-addr-6) >= sizeof(ip))
+  {
+    rtLog_Warn("invalid address string:%s", (addr+6));
+    return RT_ERROR_INVALID_ARG;
+  }
   strncpy(ip, addr+6, (p-addr-6));
   rtLog_Debug("parsing ip address:%s", ip);
   if (!rtSocket_IsNumeric(ip))
-- 
2.43.0


From 3a807d831cb60dbb422a6dc9617fd71e325ba3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:22 +0000
Subject: [PATCH 58/93] fix: a second answer to a request replaced and leaked
 the first one

---
 src/rtmessage/rtConnection.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/rtmessage/rtConnection.c b/src/rtmessage/rtConnection.c
index 142fba0..90fbe11 100644
--- a/src/rtmessage/rtConnection.c
+++ b/src/rtmessage/rtConnection.c
@@ -1619,9 +1619,12 @@ rtConnection_Read(rtConnection con, int32_t timeout)
         rtListItem_GetData(listItem, (void**)&entry);
         if(entry->sequence_number == msginfo->header.sequence_number)
         {
-          entry->response = msginfo;
-          msginfo = NULL; /*rtConnection_SendRequest thread will release it*/
-          rtSemaphore_Post(entry->sem);
+          if(!entry->response)
+          {
+            entry->response = msginfo;
+            msginfo = NULL; /*rtConnection_SendRequest thread will release it*/
+            rtSemaphore_Post(entry->sem);
+          }
           break;
         }
       }
-- 
2.43.0


From f9a3dc76e45a14f53347e5f2ff1c07630d990a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:22 +0000
Subject: [PATCH 59/93] fix: a request that timed out left the list of pending
 requests without holding its lock

---
 src/rtmessage/rtConnection.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/rtmessage/rtConnection.c b/src/rtmessage/rtConnection.c
index 90fbe11..8af89b0 100644
--- a/src/rtmessage/rtConnection.c
+++ b/src/rtmessage/rtConnection.c
@@ -1050,7 +1050,7 @@ rtConnection_SendRequestInternal(rtConnection con, uint8_t const* pReq, uint32_t
         else if(err == RT_NO_CONNECTION)
         {
           ret = err;
-          goto dequeue_and_continue;
+          break;
         }
         else
         {
@@ -1060,13 +1060,15 @@ rtConnection_SendRequestInternal(rtConnection con, uint8_t const* pReq, uint32_t
         }
       } while(RT_OK == err);
     }
-    if(RT_OK == ret)
-    {
-      /*Sem posted*/
-      pthread_mutex_lock(&con->mutex);
+    /*the reader thread uses the list and the entry with this lock held*/
+    pthread_mutex_lock(&con->mutex);
 
+    if(queue_entry.response || RT_OK == ret)
+    {
+      /*Sem posted, or the response came just as the wait ended*/
       if(queue_entry.response)
       {
+        ret = RT_OK;
         if(queue_entry.response->header.flags & rtMessageFlags_Undeliverable)
         {
           rtMessageInfo_Release(queue_entry.response);
-- 
2.43.0


From 6c0ef11bda460fd380923041112e6f5e5e64c09e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:43 +0000
Subject: [PATCH 60/93] fix: a wait on a semaphore could end without it having
 been posted

---
 src/rtmessage/rtSemaphore.c | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/rtmessage/rtSemaphore.c b/src/rtmessage/rtSemaphore.c
index 45d64d4..6536702 100644
--- a/src/rtmessage/rtSemaphore.c
+++ b/src/rtmessage/rtSemaphore.c
@@ -106,14 +106,17 @@ rtError rtSemaphore_TimedWait(rtSemaphore sem, struct timespec* t)
     ERROR_CHECK(pthread_mutex_unlock(&sem->m));
     return RT_OK;
   }
-  if(t)
-    err = pthread_cond_timedwait(&sem->c, &sem->m, t);
-  else
-    err = pthread_cond_wait(&sem->c, &sem->m);
-  if(err == 0)
+  do /*a wait can also end without a post*/
   {
-    if(sem->v > 0)
-      sem->v--;
+    if(t)
+      err = pthread_cond_timedwait(&sem->c, &sem->m, t);
+    else
+      err = pthread_cond_wait(&sem->c, &sem->m);
+  }
+  while(err == 0 && sem->v == 0);
+  if(sem->v > 0)
+  {
+    sem->v--;
   }
   else
   {
-- 
2.43.0


From d1c15f6e61b9684de6480b93dad2681d8c63d773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:08 +0000
Subject: [PATCH 61/93] fix: a message with an impossible payload length was
 written past a client's buffer

---
 src/rtmessage/rtConnection.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/rtmessage/rtConnection.c b/src/rtmessage/rtConnection.c
index 8af89b0..f96dba6 100644
--- a/src/rtmessage/rtConnection.c
+++ b/src/rtmessage/rtConnection.c
@@ -31,6 +31,7 @@
 #include "rtTime.h"
 #include "rtSemaphore.h"
 #include "rtMemory.h"
+#include "rtrouteBase.h"
 #include <dlfcn.h>
 
 #if defined(__GNUC__)                                                          \
@@ -1539,6 +1540,12 @@ rtConnection_Read(rtConnection con, int32_t timeout)
       err = rtMessageHeader_Decode(&msginfo->header, con->recv_buffer);
     }
 
+    if (err == RT_OK && msginfo->header.payload_length > RTMSG_MAX_PAYLOAD_LENGTH)
+    {
+      rtLog_Error("dropping a message with an impossible payload length %u", msginfo->header.payload_length);
+      err = RT_ERROR;
+    }
+
     // TODO: need to check for secure message here and decrypt
     // the msginfo->data and capacity might need to adjusted
 
-- 
2.43.0


From 149e837cce4d94e92d8b0b2011b6f39ad1f0658d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:08 +0000
Subject: [PATCH 62/93] fix: when no socket could be had for reconnecting,
 listeners were lost and other threads waited forever

---
 src/rtmessage/rtConnection.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/rtmessage/rtConnection.c b/src/rtmessage/rtConnection.c
index f96dba6..fa3f639 100644
--- a/src/rtmessage/rtConnection.c
+++ b/src/rtmessage/rtConnection.c
@@ -282,6 +282,7 @@ static rtError
 rtConnection_ConnectAndRegister(rtConnection con, rtTime_t* reconnect_time)
 {
   int i = 1;
+  int fd = -1;
   int ret = 0;
   int fdManip = 0;
   uint16_t remote_port = 0;
@@ -352,13 +353,18 @@ rtConnection_ConnectAndRegister(rtConnection con, rtTime_t* reconnect_time)
 
   rtSocketStorage_GetLength(&con->remote_endpoint, &socket_length);
 
+  rtLog_Debug("connecting to router");
+  fd = socket(con->remote_endpoint.ss_family, SOCK_STREAM, 0);
+  if (fd == -1)
+  {
+    rtError err = rtErrorFromErrno(errno);
+    con->reconnect_in_progress = 0;
+    return err;
+  }
+
   if (con->fd != -1)
     close(con->fd);
-
-  rtLog_Debug("connecting to router");
-  con->fd = socket(con->remote_endpoint.ss_family, SOCK_STREAM, 0);
-  if (con->fd == -1)
-    return rtErrorFromErrno(errno);
+  con->fd = fd;
   rtLog_Debug("router connection up");
 
   fdManip = fcntl(con->fd, F_GETFD);
-- 
2.43.0


From 6599b395e9c1f40435699cb0e986e17173b4f196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:08 +0000
Subject: [PATCH 63/93] fix: a client whose router went away again while it
 reconnected hung forever

---
 src/rtmessage/rtConnection.c | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/rtmessage/rtConnection.c b/src/rtmessage/rtConnection.c
index fa3f639..37f07b9 100644
--- a/src/rtmessage/rtConnection.c
+++ b/src/rtmessage/rtConnection.c
@@ -433,13 +433,32 @@ rtConnection_ConnectAndRegister(rtConnection con, rtTime_t* reconnect_time)
   {
     if (con->listeners[i].in_use)
     {
+      uint8_t* p;
+      uint32_t n;
+      rtError err;
+      uint32_t sequence_number;
       rtMessage m;
       rtMessage_Create(&m);
       rtMessage_SetInt32(m, "add", 1);
       rtMessage_SetString(m, "topic", con->listeners[i].expression);
       rtMessage_SetInt32(m, "route_id", con->listeners[i].subscription_id);
-      rtConnection_SendMessage(con, m, "_RTROUTED.INBOX.SUBSCRIBE");
+      /*not with rtConnection_SendMessage, which would wait for this very reconnect to end if the router has gone again*/
+      rtMessage_ToByteArrayWithSize(m, &p, DEFAULT_SEND_BUFFER_SIZE, &n);
+      pthread_mutex_lock(&con->mutex);
+#ifdef C11_ATOMICS_SUPPORTED
+      sequence_number = atomic_fetch_add_explicit(&con->sequence_number, 1, memory_order_relaxed);
+#else
+      sequence_number = __sync_fetch_and_add(&con->sequence_number, 1);
+#endif
+      err = rtConnection_SendInternal(con, p, n, "_RTROUTED.INBOX.SUBSCRIBE", NULL, 0, sequence_number, 0, 0, 0);
+      pthread_mutex_unlock(&con->mutex);
+      rtMessage_FreeByteArray(p);
       rtMessage_Release(m);
+      if (err == RT_NO_CONNECTION)
+      {
+        con->reconnect_in_progress = 0;
+        return err;
+      }
 
       /*TODO: we need to readd all the aliases too -- would this allow rbus to recover from broker crash ?*/
     }
-- 
2.43.0


From 11bd99e74110930a9adc050d448622b98f102518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:51 +0000
Subject: [PATCH 64/93] fix: a message the socket took only a part of was sent
 again from its start

---
 src/rtmessage/rtConnection.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/rtmessage/rtConnection.c b/src/rtmessage/rtConnection.c
index 37f07b9..fade10c 100644
--- a/src/rtmessage/rtConnection.c
+++ b/src/rtmessage/rtConnection.c
@@ -1240,12 +1240,25 @@ rtConnection_SendInternal(rtConnection con, uint8_t const* buff, uint32_t n, cha
   {
     err = RT_OK;
     bytes_sent = sendmsg(con->fd, &send_hdr, MSG_NOSIGNAL);
-    if (bytes_sent != (ssize_t)(header.header_length + header.payload_length))
+    if (bytes_sent != (ssize_t)(send_vec[0].iov_len + send_vec[1].iov_len))
     {
       if (bytes_sent == -1)
         err = rtErrorFromErrno(errno);
       else
+      {
+        /*the rest of the message has to follow what was taken of it*/
+        size_t i;
+        size_t taken = bytes_sent;
+        for (i = 0; i < 2; ++i)
+        {
+          size_t part = taken < send_vec[i].iov_len ? taken : send_vec[i].iov_len;
+          send_vec[i].iov_base = (uint8_t *)send_vec[i].iov_base + part;
+          send_vec[i].iov_len -= part;
+          taken -= part;
+        }
+        num_attempts = 0;
         err = RT_FAIL;
+      }
     }
 
     if (err != RT_OK && rtConnection_ShouldReregister(err))
-- 
2.43.0


From 2040cd98243e921318d8e75b40a869740333f380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:51 +0000
Subject: [PATCH 65/93] fix: a connection that could not be made left its
 socket open

---
 src/rtmessage/rtConnection.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rtmessage/rtConnection.c b/src/rtmessage/rtConnection.c
index fade10c..e9749d1 100644
--- a/src/rtmessage/rtConnection.c
+++ b/src/rtmessage/rtConnection.c
@@ -626,6 +626,8 @@ rtConnection_CreateInternal(rtConnection* con, char const* application_name, cha
   {
     // TODO: at least log this
     rtLog_Warn("rtConnection_ConnectAndRegister(1):%d", err);
+    if (c->fd != -1)
+      close(c->fd);
     free(c->send_buffer);
     free(c->recv_buffer);
     free(c->application_name);
-- 
2.43.0


From b3cf6084c6fa3b2c4ed0be9d95229932474479a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:51 +0000
Subject: [PATCH 66/93] fix: connecting to a malformed tcp address aborted the
 process

---
 src/rtmessage/rtSocket.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/rtmessage/rtSocket.c b/src/rtmessage/rtSocket.c
index 825f2fe..b5ca9af 100644
--- a/src/rtmessage/rtSocket.c
+++ b/src/rtmessage/rtSocket.c
@@ -246,6 +246,11 @@ rtSocketStorage_FromString(struct sockaddr_storage* ss, char const* addr)
       v6->sin6_family = AF_INET6;
       v6->sin6_port = htons(port);
     }
+    else
+    {
+      rtLog_Warn("invalid address string:%s", addr);
+      return RT_ERROR_INVALID_ARG;
+    }
   }
   else
   {
-- 
2.43.0


From 8234786a2531454317f106ad706f6f4b94df0539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:36 +0000
Subject: [PATCH 67/93] fix: value change polling and (un)subscribing could
 wait for each other forever

---
 src/rbus/rbus.c             |   5 +
 src/rbus/rbus_valuechange.c | 314 ++++++++++++++++++++----------------
 src/rbus/rbus_valuechange.h |   2 +
 3 files changed, 180 insertions(+), 141 deletions(-)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index 0998fa6..2f36510 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -1094,6 +1094,11 @@ void valueChangeTableRowUpdate(rbusHandle_t handle, elementNode* rowNode, bool a
                         rbusValueChange_RemovePropertyNode(handle, child);
                     }
                 }
+                /*the caller deletes the row next*/
+                if(!added)
+                {
+                    rbusValueChange_WaitPropertyNode(child);
+                }
             }
 
             /*recurse into children that are not row templates*/
diff --git a/src/rbus/rbus_valuechange.c b/src/rbus/rbus_valuechange.c
index db975b2..8e8aef4 100644
--- a/src/rbus/rbus_valuechange.c
+++ b/src/rbus/rbus_valuechange.c
@@ -21,7 +21,7 @@
     Value-Change Detection:
     Simple API that allows you to add/remove parameters you wish to check value-change for.
     Uses a single thread to poll parameter values across all rbus handles.
-    The thread is started on first param added and stopped on last param removed.
+    The thread is started on first param added and stops once the last param was removed.
     A poling period (default 30 seconds) helps to limit the cpu usage.
     Runs in the provider process, so the value are got with direct callbacks and not over the network.
     The technique is simple:
@@ -57,14 +57,17 @@
 #define LOCK() ERROR_CHECK(pthread_mutex_lock(&gVC->mutex))
 #define UNLOCK() ERROR_CHECK(pthread_mutex_unlock(&gVC->mutex))
 
+struct ValueChangeRecord;
+
 
 typedef struct ValueChangeDetector_t
 {
-    int              running;
+    int              running;   //there is a polling thread
     rtVector         params;
+    struct ValueChangeRecord* polled;  //the record which the polling thread handles, without the mutex, now
     pthread_mutex_t  mutex;
-    pthread_t        thread;
-    pthread_cond_t   cond;
+    pthread_cond_t   cond;      //tells the polling thread that params became empty
+    pthread_cond_t   idle;      //tells others that polled or running were cleared
 } ValueChangeDetector_t;
 
 typedef struct ValueChangeRecord
@@ -72,9 +75,11 @@ typedef struct ValueChangeRecord
     rbusHandle_t handle;    //needed when calling rbus_getHandler and rbusEvent_Publish
     elementNode const* node;    //used to call the rbus_getHandler is contains
     rbusProperty_t property;    //the parameter with value that gets cached
+    bool removed;               //no longer in params: the polling thread, which still handles it, frees it
 } ValueChangeRecord;
 
-ValueChangeDetector_t* gVC = NULL;
+static ValueChangeDetector_t* gVC = NULL;
+static pthread_once_t gVCOnce = PTHREAD_ONCE_INIT;
 
 static void rbusValueChange_Init()
 {
@@ -83,13 +88,11 @@ static void rbusValueChange_Init()
 
     RBUSLOG_DEBUG("%s", __FUNCTION__);
 
-    if(gVC)
-        return;
-
     gVC = rt_malloc(sizeof(struct ValueChangeDetector_t));
 
     gVC->running = 0;
     gVC->params = NULL;
+    gVC->polled = NULL;
 
     rtVector_Create(&gVC->params);
 
@@ -101,6 +104,7 @@ static void rbusValueChange_Init()
     ERROR_CHECK(pthread_condattr_setclock(&cattrib, CLOCK_MONOTONIC));
     ERROR_CHECK(pthread_cond_init(&gVC->cond, &cattrib));
     ERROR_CHECK(pthread_condattr_destroy(&cattrib));
+    ERROR_CHECK(pthread_cond_init(&gVC->idle, NULL));
 }
 
 static void vcParams_Free(void* p)
@@ -124,12 +128,100 @@ static ValueChangeRecord* vcParams_Find(const elementNode* paramNode)
     return NULL;
 }
 
+/*  Get the current value of a parameter and publish an event if it has changed.
+ *  The mutex isn't held, because the provider's handler and rbusEvent_Publish take locks
+ *  which the callers of the functions below hold.
+ */
+static void rbusValueChange_poll(ValueChangeRecord* rec)
+{
+    rbusProperty_t property;
+    rbusValue_t newVal, oldVal;
+
+    rbusProperty_Init(&property,rbusProperty_GetName(rec->property), NULL);
+
+    rbusGetHandlerOptions_t opts;
+    memset(&opts, 0, sizeof(rbusGetHandlerOptions_t));
+    opts.requestingComponent = "valueChangePollThread";
+
+    ELM_PRIVATE_LOCK(rec->node);
+    int result = rec->node->cbTable.getHandler(rec->handle, property, &opts);
+    ELM_PRIVATE_UNLOCK(rec->node);
+
+    if(result != RBUS_ERROR_SUCCESS)
+    {
+        RBUSLOG_WARN("failed to get current value of %s", rbusProperty_GetName(property));
+        rbusProperty_Release(property);
+        return;
+    }
+
+    char* sValue = rbusValue_ToString(rbusProperty_GetValue(property), NULL, 0);
+    RBUSLOG_DEBUG("%s=%s", rbusProperty_GetName(property), sValue);
+    free(sValue);
+
+    newVal = rbusProperty_GetValue(property);
+    oldVal = rbusProperty_GetValue(rec->property);
+
+    if(rbusValue_Compare(newVal, oldVal))
+    {
+        rbusEvent_t event = {0};
+        rbusObject_t data;
+        rbusValue_t byVal = NULL;
+
+        RBUSLOG_INFO("value change detected for %s", rbusProperty_GetName(rec->property));
+
+        /* The "by" field is set to the component's name which made the last value change.
+           The source of a value-change could be an external component calling rbus_set or the provider internally updating
+           the value.  changeComp/changeTime are updated through the rbus_set path, but not through the provider internal path.
+           We must deduce if the provider has updated the value and reflect that change to the changeComp/changeTime, right here.
+           If we don't have a changeComp or we do but the changeTime is older then the current polling period,
+           then we know it was the provider who updated the value we are now detecting.
+        */
+        if(rec->node->changeComp == NULL || 
+           (rtTime_Elapsed(&rec->node->changeTime, NULL) >= RBUS_VALUECHANGE_PERIOD &&
+           strcmp(rec->handle->componentName, rec->node->changeComp) == 0))
+        {
+            printf("VC detected provider-side value-change oldcomp=%s elapsed=%d period=%d\n", rec->node->changeComp, rtTime_Elapsed(&rec->node->changeTime, NULL), RBUS_VALUECHANGE_PERIOD);
+            setPropertyChangeComponent((elementNode*)rec->node, rec->handle->componentName);
+        }
+
+        rbusObject_Init(&data, NULL);
+        rbusObject_SetValue(data, "value", newVal);
+        rbusObject_SetValue(data, "oldValue", oldVal);
+
+        rbusValue_Init(&byVal);
+        rbusValue_SetString(byVal, rec->node->changeComp);
+        rbusObject_SetValue(data, "by", byVal);
+        rbusValue_Release(byVal);
+
+        event.name = rbusProperty_GetName(rec->property);
+        event.data = data;
+        event.type = RBUS_EVENT_VALUE_CHANGED;
+        result = rbusEvent_Publish(rec->handle, &event);
+
+        rbusObject_Release(data);
+
+        if(result != RBUS_ERROR_SUCCESS)
+        {
+            RBUSLOG_WARN("Event_Publish failed with result=%d", result);
+        }
+
+        /*update the record's property with new value*/
+        rbusProperty_SetValue(rec->property, rbusProperty_GetValue(property));
+        rbusProperty_Release(property);
+    }
+    else
+    {
+        RBUSLOG_DEBUG("value change not detected for %s", rbusProperty_GetName(rec->property));
+        rbusProperty_Release(property);
+    }
+}
+
 static void* rbusValueChange_pollingThreadFunc(void *userData)
 {
     (void)(userData);
     RBUSLOG_DEBUG("%s: start", __FUNCTION__);
     LOCK();
-    while(gVC->running)
+    while(rtVector_Size(gVC->params) != 0)
     {
         size_t i;
         int err;
@@ -146,112 +238,55 @@ static void* rbusValueChange_pollingThreadFunc(void *userData)
         {
             RBUSLOG_ERROR("Error %d:%s running command pthread_cond_timedwait", err, strerror(err));
         }
-        
-        if(!gVC->running)
-        {
-            break;
-        }
 
         for(i=0; i < rtVector_Size(gVC->params); ++i)
         {
-            rbusProperty_t property;
-            rbusValue_t newVal, oldVal;
-
             ValueChangeRecord* rec = (ValueChangeRecord*)rtVector_At(gVC->params, i);
             if(!rec)
                 continue;
 
-            rbusProperty_Init(&property,rbusProperty_GetName(rec->property), NULL);
-
-            rbusGetHandlerOptions_t opts;
-            memset(&opts, 0, sizeof(rbusGetHandlerOptions_t));
-            opts.requestingComponent = "valueChangePollThread";
-
-            ELM_PRIVATE_LOCK(rec->node);
-            int result = rec->node->cbTable.getHandler(rec->handle, property, &opts);
-            ELM_PRIVATE_UNLOCK(rec->node);
-
-            if(result != RBUS_ERROR_SUCCESS)
-            {
-                RBUSLOG_WARN("failed to get current value of %s", rbusProperty_GetName(property));
-                continue;
-            }
-
-            char* sValue = rbusValue_ToString(rbusProperty_GetValue(property), NULL, 0);
-            RBUSLOG_DEBUG("%s=%s", rbusProperty_GetName(property), sValue);
-            free(sValue);
-
-            newVal = rbusProperty_GetValue(property);
-            oldVal = rbusProperty_GetValue(rec->property);
-
-            if(rbusValue_Compare(newVal, oldVal))
-            {
-                rbusEvent_t event = {0};
-                rbusObject_t data;
-                rbusValue_t byVal = NULL;
-
-                RBUSLOG_INFO("value change detected for %s", rbusProperty_GetName(rec->property));
-
-                /* The "by" field is set to the component's name which made the last value change.
-                   The source of a value-change could be an external component calling rbus_set or the provider internally updating
-                   the value.  changeComp/changeTime are updated through the rbus_set path, but not through the provider internal path.
-                   We must deduce if the provider has updated the value and reflect that change to the changeComp/changeTime, right here.
-                   If we don't have a changeComp or we do but the changeTime is older then the current polling period,
-                   then we know it was the provider who updated the value we are now detecting.
-                */
-                if(rec->node->changeComp == NULL || 
-                   (rtTime_Elapsed(&rec->node->changeTime, NULL) >= RBUS_VALUECHANGE_PERIOD &&
-                   strcmp(rec->handle->componentName, rec->node->changeComp) == 0))
-                {
-                    printf("VC detected provider-side value-change oldcomp=%s elapsed=%d period=%d\n", rec->node->changeComp, rtTime_Elapsed(&rec->node->changeTime, NULL), RBUS_VALUECHANGE_PERIOD);
-                    setPropertyChangeComponent((elementNode*)rec->node, rec->handle->componentName);
-                }
-
-                rbusObject_Init(&data, NULL);
-                rbusObject_SetValue(data, "value", newVal);
-                rbusObject_SetValue(data, "oldValue", oldVal);
-
-                rbusValue_Init(&byVal);
-                rbusValue_SetString(byVal, rec->node->changeComp);
-                rbusObject_SetValue(data, "by", byVal);
-                rbusValue_Release(byVal);
-
-                event.name = rbusProperty_GetName(rec->property);
-                event.data = data;
-                event.type = RBUS_EVENT_VALUE_CHANGED;
-                result = rbusEvent_Publish(rec->handle, &event);
-
-                rbusObject_Release(data);
-
-                if(result != RBUS_ERROR_SUCCESS)
-                {
-                    RBUSLOG_WARN("Event_Publish failed with result=%d", result);
-                }
-
-                /*update the record's property with new value*/
-                rbusProperty_SetValue(rec->property, rbusProperty_GetValue(property));
-                rbusProperty_Release(property);
-            }
-            else
-            {
-                RBUSLOG_DEBUG("value change not detected for %s", rbusProperty_GetName(rec->property));
-                rbusProperty_Release(property);
-            }
+            gVC->polled = rec;
+            UNLOCK();
+            rbusValueChange_poll(rec);
+            LOCK();
+            gVC->polled = NULL;
+            if(rec->removed)
+                vcParams_Free(rec);
+            ERROR_CHECK(pthread_cond_broadcast(&gVC->idle));
         }
     }
+    gVC->running = 0;
+    ERROR_CHECK(pthread_cond_broadcast(&gVC->idle));
     UNLOCK();
     RBUSLOG_DEBUG("%s: stop", __FUNCTION__);
     return NULL;
 }
 
-void rbusValueChange_AddPropertyNode(rbusHandle_t handle, elementNode* propNode)
+/*  take a record out of the list; must be called with the mutex held */
+static void vcParams_Remove(ValueChangeRecord* rec)
 {
-    ValueChangeRecord* rec;
+    if(rec == gVC->polled)
+    {
+        rec->removed = true;
+        rtVector_RemoveItem(gVC->params, rec, NULL);
+    }
+    else
+    {
+        rtVector_RemoveItem(gVC->params, rec, vcParams_Free);
+    }
 
-    if(!gVC)
+    /* if there's nothing left to poll then the polling thread ends */
+    if(rtVector_Size(gVC->params) == 0)
     {
-        rbusValueChange_Init();
+        ERROR_CHECK(pthread_cond_signal(&gVC->cond));
     }
+}
+
+void rbusValueChange_AddPropertyNode(rbusHandle_t handle, elementNode* propNode)
+{
+    ValueChangeRecord* rec;
+
+    ERROR_CHECK(pthread_once(&gVCOnce, rbusValueChange_Init));
 
     /* basic sanity tests */    
     assert(propNode);
@@ -287,6 +322,7 @@ void rbusValueChange_AddPropertyNode(rbusHandle_t handle, elementNode* propNode)
         rec = (ValueChangeRecord*)rt_malloc(sizeof(ValueChangeRecord));
         rec->handle = handle;
         rec->node = propNode;
+        rec->removed = false;
 
         rbusProperty_Init(&rec->property, propNode->fullName, NULL);
 
@@ -313,14 +349,31 @@ void rbusValueChange_AddPropertyNode(rbusHandle_t handle, elementNode* propNode)
 
         LOCK();//############ LOCK ############
 
-        rtVector_PushBack(gVC->params, rec);
+        if(vcParams_Find(propNode))
+        {
+            /* somebody else has added it meanwhile */
+            vcParams_Free(rec);
+        }
+        else
+        {
+            rtVector_PushBack(gVC->params, rec);
+        }
 
         /* start polling thread if needed */
 
         if(!gVC->running)
         {
-            gVC->running = 1;
-            pthread_create(&gVC->thread, NULL, rbusValueChange_pollingThreadFunc, NULL);
+            pthread_t thread;
+            int err = pthread_create(&thread, NULL, rbusValueChange_pollingThreadFunc, NULL);
+            if(err == 0)
+            {
+                gVC->running = 1;
+                ERROR_CHECK(pthread_detach(thread));
+            }
+            else
+            {
+                RBUSLOG_ERROR("Error %d:%s failed to start the polling thread", err, strerror(err));
+            }
         }
 
         UNLOCK();//############ UNLOCK ############
@@ -330,7 +383,6 @@ void rbusValueChange_AddPropertyNode(rbusHandle_t handle, elementNode* propNode)
 void rbusValueChange_RemovePropertyNode(rbusHandle_t handle, elementNode* propNode)
 {
     ValueChangeRecord* rec;
-    bool stopThread = false;
 
     (void)(handle);
     VERIFY_NULL(propNode);
@@ -345,28 +397,28 @@ void rbusValueChange_RemovePropertyNode(rbusHandle_t handle, elementNode* propNo
     rec = vcParams_Find(propNode);
     if(rec)
     {
-        rtVector_RemoveItem(gVC->params, rec, vcParams_Free);
-        /* if there's nothing left to poll then shutdown the polling thread */
-        if(gVC->running && rtVector_Size(gVC->params) == 0)
-        {
-            stopThread = true;
-            gVC->running = 0;
-        }
-        else 
-        {
-            stopThread = false;
-        }
+        vcParams_Remove(rec);
     }
     else
     {
         RBUSLOG_WARN("value change param not found: %s", propNode->fullName);
     }
     UNLOCK();//############ UNLOCK ############
-    if(stopThread)
+}
+
+void rbusValueChange_WaitPropertyNode(elementNode* propNode)
+{
+    if(!gVC)
     {
-        ERROR_CHECK(pthread_cond_signal(&gVC->cond));
-        ERROR_CHECK(pthread_join(gVC->thread, NULL));
+        return;
+    }
+
+    LOCK();//############ LOCK ############
+    while(gVC->polled && gVC->polled->node == propNode)
+    {
+        ERROR_CHECK(pthread_cond_wait(&gVC->idle, &gVC->mutex));
     }
+    UNLOCK();//############ UNLOCK ############
 }
 
 void rbusValueChange_CloseHandle(rbusHandle_t handle)
@@ -386,7 +438,7 @@ void rbusValueChange_CloseHandle(rbusHandle_t handle)
         ValueChangeRecord* rec = (ValueChangeRecord*)rtVector_At(gVC->params, i);
         if(rec && rec->handle == handle)
         {
-            rtVector_RemoveItem(gVC->params, rec, vcParams_Free);
+            vcParams_Remove(rec);
         }
         else
         {
@@ -395,31 +447,11 @@ void rbusValueChange_CloseHandle(rbusHandle_t handle)
         }
     }
 
-    //clean up everything once all params are removed
-    //but check the size to ensure we do not clean up if params for other rbus handles exist
-    if(rtVector_Size(gVC->params) == 0)
+    //wait until the polling thread doesn't use this handle and, if there is nothing left to poll, has ended
+    while((gVC->polled && gVC->polled->handle == handle) ||
+          (gVC->running && rtVector_Size(gVC->params) == 0))
     {
-        if(gVC->running)
-        {
-            gVC->running = 0;
-            UNLOCK();//############ UNLOCK ############
-            ERROR_CHECK(pthread_cond_signal(&gVC->cond));
-            ERROR_CHECK(pthread_join(gVC->thread, NULL));
-        }
-        else
-        {
-            UNLOCK();//############ UNLOCK ############
-        }
-        ERROR_CHECK(pthread_mutex_destroy(&gVC->mutex));
-        ERROR_CHECK(pthread_cond_destroy(&gVC->cond));
-        rtVector_Destroy(gVC->params, NULL);
-        gVC->params = NULL;
-        free(gVC);
-        gVC = NULL;
-    }
-    else
-    {
-        UNLOCK();//############ UNLOCK ############
+        ERROR_CHECK(pthread_cond_wait(&gVC->idle, &gVC->mutex));
     }
+    UNLOCK();//############ UNLOCK ############
 }
-
diff --git a/src/rbus/rbus_valuechange.h b/src/rbus/rbus_valuechange.h
index 6ecb433..27544ca 100644
--- a/src/rbus/rbus_valuechange.h
+++ b/src/rbus/rbus_valuechange.h
@@ -28,6 +28,8 @@ extern "C" {
 
 void rbusValueChange_AddPropertyNode(rbusHandle_t handle, elementNode* propNode);
 void rbusValueChange_RemovePropertyNode(rbusHandle_t handle, elementNode* propNode);
+/*wait until the polling thread doesn't use a property, which was removed before*/
+void rbusValueChange_WaitPropertyNode(elementNode* propNode);
 void rbusValueChange_CloseHandle(rbusHandle_t handle);
 
 #ifdef __cplusplus
-- 
2.43.0


From b9609102db36a3f5222638eb11b6e23c0e7596f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:50 +0000
Subject: [PATCH 68/93] fix: interval subscriptions outlived their
 subscription, or waited for it forever

---
 src/rbus/rbus.c                      |   2 +
 src/rbus/rbus_intervalsubscription.c | 233 ++++++++++++++++-----------
 src/rbus/rbus_intervalsubscription.h |   1 +
 src/rbus/rbus_subscriptions.c        |   9 +-
 4 files changed, 149 insertions(+), 96 deletions(-)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index 2f36510..1134052 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -3302,6 +3302,8 @@ rbusError_t rbus_close(rbusHandle_t handle)
         handleInfo->messageCallbacks = NULL;
     }
 
+    rbusInterval_CloseHandle(handle);//called before its subscriptions are destroyed
+
     if(handleInfo->subscriptions != NULL)
     {
         HANDLE_SUBS_MUTEX_LOCK(handle);
diff --git a/src/rbus/rbus_intervalsubscription.c b/src/rbus/rbus_intervalsubscription.c
index aa83fe2..417e44d 100644
--- a/src/rbus/rbus_intervalsubscription.c
+++ b/src/rbus/rbus_intervalsubscription.c
@@ -43,36 +43,52 @@
 #define VERIFY_NULL(T)      if(NULL == T){ return; }
 
 rtVector gRecord = NULL;
-static pthread_mutex_t gMutex = PTHREAD_MUTEX_INITIALIZER;
+static pthread_mutex_t gMutex = PTHREAD_MUTEX_INITIALIZER; /*taken after the handle's subscriptions mutex*/
+static pthread_cond_t gIdle = PTHREAD_COND_INITIALIZER; /*a publishing thread has ended*/
+/* The publishing thread owns its record and has copies of what it needs from the subscription,
+   which might be removed at any time */
 typedef struct sRecord
 {
     int running;
-    pthread_mutex_t  mutex;
-    pthread_t        thread;
     pthread_cond_t   cond;
     rbusHandle_t     handle;
-    elementNode const* node;
-    rbusProperty_t   property;
-    rbusSubscription_t* sub;
+    rbusSubscription_t* sub; /*identifies the subscription while running*/
+    char*            eventName;
+    char*            listener;
+    rbusFilter_t     filter;
+    uint32_t         interval;
+    uint32_t         duration;
+    int32_t          componentId;
+    uint32_t         subscriptionId;
+    bool             rawData;
 } sRecord;
 
 void rbusEventData_appendToMessage(rbusEvent_t* event, rbusFilter_t filter, int32_t interval, int32_t duration, int32_t componentId, rbusMessage msg);
 extern rbusError_t get_recursive_wildcard_handler (rbusHandle_t handle, char const *parameterName, const char* pRequestingComp, rbusProperty_t properties, int *pCount);
-static void init_thread(sRecord* sub_rec)
+static sRecord* sub_create(rbusHandle_t handle, rbusSubscription_t* sub)
 {
-    pthread_mutexattr_t attrib;
     pthread_condattr_t cattrib;
+    sRecord* rec = (sRecord*)rt_malloc(sizeof(sRecord));
 
-    sub_rec->running = 0;
-
-    ERROR_CHECK(pthread_mutexattr_init(&attrib));
-    ERROR_CHECK(pthread_mutexattr_settype(&attrib, PTHREAD_MUTEX_ERRORCHECK));
-    ERROR_CHECK(pthread_mutex_init(&sub_rec->mutex, &attrib));
+    rec->running = 1;
+    rec->handle = handle;
+    rec->sub = sub;
+    rec->eventName = strdup(sub->eventName);
+    rec->listener = strdup(sub->listener);
+    rec->filter = sub->filter;
+    if(rec->filter)
+        rbusFilter_Retain(rec->filter);
+    rec->interval = sub->interval;
+    rec->duration = sub->duration;
+    rec->componentId = sub->componentId;
+    rec->subscriptionId = sub->subscriptionId;
+    rec->rawData = sub->rawData;
 
     ERROR_CHECK(pthread_condattr_init(&cattrib));
     ERROR_CHECK(pthread_condattr_setclock(&cattrib, CLOCK_MONOTONIC));
-    ERROR_CHECK(pthread_cond_init(&sub_rec->cond, &cattrib));
+    ERROR_CHECK(pthread_cond_init(&rec->cond, &cattrib));
     ERROR_CHECK(pthread_condattr_destroy(&cattrib));
+    return rec;
 }
 
 static void sub_Free(void* p)
@@ -80,10 +96,11 @@ static void sub_Free(void* p)
     sRecord* rec = (sRecord*)p;
     if(rec)
     {
-        ERROR_CHECK(pthread_mutex_destroy(&rec->mutex));
         ERROR_CHECK(pthread_cond_destroy(&rec->cond));
-        rbusProperty_Release(rec->property);
-        rec->sub = NULL;
+        if(rec->filter)
+            rbusFilter_Release(rec->filter);
+        free(rec->eventName);
+        free(rec->listener);
         free(rec);
     }
 }
@@ -94,7 +111,7 @@ static sRecord* sub_find(rbusSubscription_t* sub)
     for(i=0; i < rtVector_Size(gRecord); ++i)
     {
         sRecord* rec = (sRecord*)rtVector_At(gRecord, i);
-        if(rec && rec->sub == sub) {
+        if(rec && rec->running && rec->sub == sub) {
             return rec;
 	}
     }
@@ -106,39 +123,48 @@ static void* PublishingThreadFunc(void* rec)
 {
     RBUSLOG_DEBUG("\n PublishingThreadFunc: start\n");
     struct sRecord *sub_rec = (struct sRecord*)rec;
-    int count = 0;
-    int duration_count = 0;
+    uint32_t count = 0;
+    uint32_t duration_count = 0;
     bool duration_complete = false;
     rbusCoreError_t error;
-    rbusSubscription_t* sub = sub_rec->sub;
     struct _rbusHandle* handleInfo = (struct _rbusHandle*)sub_rec->handle;
-    ERROR_CHECK(pthread_mutex_lock(&sub_rec->mutex));
+    ERROR_CHECK(pthread_mutex_lock(&gMutex));
     while(sub_rec->running)
     {
-        int err;
+        int err = 0;
         int actualCount = 0;
         int result = 0;
         char *tmpptr = NULL;
         rtTime_t timeout;
         rtTimespec_t ts;
-        rtTime_Later(NULL, (sub->interval*1000), &timeout);
-        err = pthread_cond_timedwait(&sub_rec->cond,
-                &sub_rec->mutex,
-                rtTime_ToTimespec(&timeout, &ts));
+        rtTime_Now(&timeout);
+        timeout.tv_sec += sub_rec->interval;
+        rtTime_ToTimespec(&timeout, &ts);
+        while(sub_rec->running && err == 0)
+        {
+            err = pthread_cond_timedwait(&sub_rec->cond, &gMutex, &ts);
+        }
+
+        if(!sub_rec->running)
+        {
+            break;
+        }
 
-        if(err != 0 && err != ETIMEDOUT)
+        if(err != ETIMEDOUT)
         {
             RBUSLOG_ERROR("Error %d:%s running command pthread_cond_timedwait", err, strerror(err));
         }
+        /*the provider's handler and the publishing take locks which the callers of the functions below hold*/
+        ERROR_CHECK(pthread_mutex_unlock(&gMutex));
 
         rbusProperty_t properties = NULL;
         rbusObject_t data;
         rbusObject_Init(&data, NULL);
         rbusProperty_Init(&properties, "numberOfEntries", NULL);
-        result = get_recursive_wildcard_handler(handleInfo, sub->eventName,
+        result = get_recursive_wildcard_handler(sub_rec->handle, sub_rec->eventName,
                 "IntervalThread", properties, &actualCount);
         rbusProperty_SetInt32(properties, actualCount);
-        tmpptr = strchr(sub->eventName, '*');
+        tmpptr = strchr(sub_rec->eventName, '*');
         if (tmpptr)
         {
             rbusObject_SetProperty(data, properties);
@@ -148,21 +174,15 @@ static void* PublishingThreadFunc(void* rec)
             rbusObject_SetProperty(data, rbusProperty_GetNext(properties)); /*"numberOfEntries" property not requried for normal event*/
         }
         rbusProperty_Release(properties);
-        if(result != RBUS_ERROR_SUCCESS)
-        {
-            RBUSLOG_ERROR("failed to get details of %s", sub->eventName);
-            rbusObject_Release(data);
-            continue;
-        }
 
         rbusEvent_t event = {0};
-        event.name = sub->eventName;
+        event.name = sub_rec->eventName;
         event.data = data;
         event.type = RBUS_EVENT_INTERVAL;
         /* Handling subscription with duration */
-        if (sub->duration != 0)
+        if (sub_rec->duration != 0)
         {
-            duration_count = sub->duration/sub->interval;
+            duration_count = sub_rec->duration/sub_rec->interval;
             if (count >= duration_count)
             {
                 /* Update event type after duration timeout*/
@@ -171,44 +191,55 @@ static void* PublishingThreadFunc(void* rec)
             }
         }
 
-        rbusMessage msg;
-        rbusMessage_Init(&msg);
-        rbusEventData_appendToMessage(&event, sub->filter, sub->interval, sub->duration, sub->componentId, msg);
-
-        RBUSLOG_DEBUG("rbusEvent_Publish: publishing event %s to listener %s interval %d", sub->eventName, sub->listener, sub->interval);
-        error = rbus_publishSubscriberEvent(
-                handleInfo->componentName,
-                sub->eventName/*use the same eventName the consumer subscribed with; not event instance name eventData->name*/,
-                sub->listener,
-                msg,
-                sub->subscriptionId,
-                sub->rawData);
-
-        rbusMessage_Release(msg);
-        rbusObject_Release(data);
-        if(error != RBUSCORE_SUCCESS)
+        if(result != RBUS_ERROR_SUCCESS)
         {
-            RBUSLOG_ERROR("Event_Publish failed with result=%d", result);
+            RBUSLOG_ERROR("failed to get details of %s", sub_rec->eventName);
         }
 
-        if (duration_complete)
+        /*the end of the subscription is told even if there is no value*/
+        if(result == RBUS_ERROR_SUCCESS || duration_complete)
         {
-            break;
+            rbusMessage msg;
+            rbusMessage_Init(&msg);
+            rbusEventData_appendToMessage(&event, sub_rec->filter, sub_rec->interval, sub_rec->duration, sub_rec->componentId, msg);
+
+            RBUSLOG_DEBUG("rbusEvent_Publish: publishing event %s to listener %s interval %u", sub_rec->eventName, sub_rec->listener, sub_rec->interval);
+            error = rbus_publishSubscriberEvent(
+                    handleInfo->componentName,
+                    sub_rec->eventName/*use the same eventName the consumer subscribed with; not event instance name eventData->name*/,
+                    sub_rec->listener,
+                    msg,
+                    sub_rec->subscriptionId,
+                    sub_rec->rawData);
+
+            rbusMessage_Release(msg);
+            if(error != RBUSCORE_SUCCESS)
+            {
+                RBUSLOG_ERROR("Event_Publish failed with result=%d", error);
+            }
         }
-        else
+        rbusObject_Release(data);
+        count++;
+
+        if (duration_complete)
         {
-            count++;
+            bool subscribed;
+            ERROR_CHECK(pthread_mutex_lock(&handleInfo->handle_subsMutex));
+            ERROR_CHECK(pthread_mutex_lock(&gMutex));
+            subscribed = sub_rec->running;
+            sub_rec->running = 0;
+            ERROR_CHECK(pthread_mutex_unlock(&gMutex));
+            if(subscribed)
+            {
+                rbusSubscriptions_removeSubscription(handleInfo->subscriptions, sub_rec->sub);
+            }
+            ERROR_CHECK(pthread_mutex_unlock(&handleInfo->handle_subsMutex));
         }
-    }
-    ERROR_CHECK(pthread_mutex_unlock(&sub_rec->mutex));
-    if(duration_complete) {
         ERROR_CHECK(pthread_mutex_lock(&gMutex));
-        ERROR_CHECK(pthread_mutex_lock(&handleInfo->handle_subsMutex));
-        rbusSubscriptions_removeSubscription(handleInfo->subscriptions, sub);
-        ERROR_CHECK(pthread_mutex_unlock(&handleInfo->handle_subsMutex));
-        rtVector_RemoveItem(gRecord, sub_rec, sub_Free);
-        ERROR_CHECK(pthread_mutex_unlock(&gMutex));
     }
+    rtVector_RemoveItem(gRecord, sub_rec, sub_Free);
+    ERROR_CHECK(pthread_cond_broadcast(&gIdle));
+    ERROR_CHECK(pthread_mutex_unlock(&gMutex));
     RBUSLOG_DEBUG("%s: stop\n", __FUNCTION__);
     return NULL;
 }
@@ -243,22 +274,27 @@ rbusError_t rbusInterval_AddSubscriptionRecord(
         rtVector_Create(&gRecord);
 
     sub_rec = sub_find(sub);
-    ERROR_CHECK(pthread_mutex_unlock(&gMutex));
     if(!sub_rec)
     {
-        sub_rec = (sRecord*)rt_malloc(sizeof(sRecord));
-        sub_rec->handle = handle;
-        sub_rec->node = propNode;
-        sub_rec->sub = sub;
-        rbusProperty_Init(&sub_rec->property, propNode->fullName, NULL);
-        init_thread(sub_rec);
+        pthread_t thread;
+        int err;
 
-        /* Thread create */
-        sub_rec->running = 1;
-        pthread_create(&sub_rec->thread, NULL, PublishingThreadFunc, (void *)sub_rec);
+        sub_rec = sub_create(handle, sub);
 
-        rtVector_PushBack(gRecord, sub_rec);
+        /* Thread create */
+        err = pthread_create(&thread, NULL, PublishingThreadFunc, (void *)sub_rec);
+        if(err == 0)
+        {
+            ERROR_CHECK(pthread_detach(thread));
+            rtVector_PushBack(gRecord, sub_rec);
+        }
+        else
+        {
+            RBUSLOG_ERROR("Error %d:%s failed to start the publishing thread", err, strerror(err));
+            sub_Free(sub_rec);
+        }
     }
+    ERROR_CHECK(pthread_mutex_unlock(&gMutex));
     return RBUS_ERROR_SUCCESS; 
 }
 
@@ -272,30 +308,39 @@ void rbusInterval_RemoveSubscriptionRecord(
     (void)(propNode);
     VERIFY_NULL(sub);
 
-    if (!gRecord)
-    {
-        return;
-    }
-
     sRecord* rec;
     ERROR_CHECK(pthread_mutex_lock(&gMutex));
     rec = sub_find(sub);
+    if(rec)
+    {
+        /* the thread frees its record when it ends; waiting for that here could last forever,
+           as the thread might need the handle's subscriptions mutex */
+        rec->running = 0;
+        ERROR_CHECK(pthread_cond_signal(&rec->cond));
+    }
     ERROR_CHECK(pthread_mutex_unlock(&gMutex));
+}
 
-    if(rec)
+/* Stop all the threads of a handle and wait for their end */
+void rbusInterval_CloseHandle(rbusHandle_t handle)
+{
+    size_t i;
+    ERROR_CHECK(pthread_mutex_lock(&gMutex));
+    i = 0;
+    while(i < rtVector_Size(gRecord))
     {
-        if(rec->running)
+        sRecord* rec = (sRecord*)rtVector_At(gRecord, i);
+        if(rec->handle == handle)
         {
             rec->running = 0;
             ERROR_CHECK(pthread_cond_signal(&rec->cond));
-            ERROR_CHECK(pthread_join(rec->thread, NULL));
+            ERROR_CHECK(pthread_cond_wait(&gIdle, &gMutex));
+            i = 0;
+        }
+        else
+        {
+            i++;
         }
-        ERROR_CHECK(pthread_mutex_lock(&gMutex));
-        rtVector_RemoveItem(gRecord, rec, sub_Free);
-        ERROR_CHECK(pthread_mutex_unlock(&gMutex));
-    }
-    else
-    {
-        RBUSLOG_ERROR("value not found\n");
     }
+    ERROR_CHECK(pthread_mutex_unlock(&gMutex));
 }
diff --git a/src/rbus/rbus_intervalsubscription.h b/src/rbus/rbus_intervalsubscription.h
index 26bd0b5..9d7a501 100644
--- a/src/rbus/rbus_intervalsubscription.h
+++ b/src/rbus/rbus_intervalsubscription.h
@@ -28,6 +28,7 @@ extern "C" {
 
 rbusError_t rbusInterval_AddSubscriptionRecord(rbusHandle_t handle, elementNode* propNode, rbusSubscription_t* sub);
 void rbusInterval_RemoveSubscriptionRecord(rbusHandle_t handle, elementNode* propNode, rbusSubscription_t* sub);
+void rbusInterval_CloseHandle(rbusHandle_t handle);
 
 #ifdef __cplusplus
 }
diff --git a/src/rbus/rbus_subscriptions.c b/src/rbus/rbus_subscriptions.c
index d35449d..029651e 100644
--- a/src/rbus/rbus_subscriptions.c
+++ b/src/rbus/rbus_subscriptions.c
@@ -20,6 +20,7 @@
 #include "rbus_subscriptions.h"
 #include "rbus_buffer.h"
 #include "rbus_handle.h"
+#include "rbus_intervalsubscription.h"
 #include <rtMemory.h>
 #include <string.h>
 #include <assert.h>
@@ -72,10 +73,14 @@ static int subscriptionKeyCompare(rbusSubscription_t* subscription, char const*
 static void subscriptionFree(void* p)
 {
     rbusSubscription_t* sub = p;
-    rtListItem item;
+    rtListItem item = NULL;
     VERIFY_NULL(sub);
 
-    rtList_GetFront(sub->instances, &item);
+    if(sub->interval)
+        rbusInterval_RemoveSubscriptionRecord(NULL, NULL, sub);
+
+    if(sub->instances)/*NULL when loading it from the cache failed*/
+        rtList_GetFront(sub->instances, &item);
     while(item)
     {
         elementNode* node;
-- 
2.43.0


From dd5519cdf0afb86cbb560c25cd20f9c10f7edab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:50 +0000
Subject: [PATCH 69/93] fix: the subscriptions were left unlocked while some
 were restored or dropped

---
 src/rbus/rbus.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index 1134052..6e6b6e1 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -3113,6 +3113,8 @@ rbusError_t rbus_open(rbusHandle_t* handle, char const* componentName)
     ERROR_CHECK(pthread_mutexattr_init(&attrib));
     ERROR_CHECK(pthread_mutexattr_settype(&attrib, PTHREAD_MUTEX_ERRORCHECK));
     ERROR_CHECK(pthread_mutex_init(&tmpHandle->handle_eventSubsMutex, &attrib));
+    /*recursive, because subscriptions are restored and dropped with it held*/
+    ERROR_CHECK(pthread_mutexattr_settype(&attrib, PTHREAD_MUTEX_RECURSIVE));
     ERROR_CHECK(pthread_mutex_init(&tmpHandle->handle_subsMutex, &attrib));
 
     *handle = tmpHandle;
-- 
2.43.0


From 646c343a4e64001b2031b101ec1a353345465b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:11 +0000
Subject: [PATCH 70/93] fix: a provider's own change of a value was told to be
 by the component which had set it before

---
 src/rbus/rbus.c             |  3 ++-
 src/rbus/rbus_element.c     |  3 +--
 src/rbus/rbus_element.h     |  1 +
 src/rbus/rbus_valuechange.c | 53 +++++++++++++++++++++----------------
 4 files changed, 34 insertions(+), 26 deletions(-)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index 6e6b6e1..46d8d44 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -1627,6 +1627,8 @@ static void _set_callback_handler (rbusHandle_t handle, rbusMessage request, rbu
 
                         ELM_PRIVATE_LOCK(el);
                         rc = el->cbTable.setHandler(handle, pProperties[loopCnt], &opts);
+                        if (rc == RBUS_ERROR_SUCCESS)
+                            setPropertyChangeComponent(el, pCompName);
                         ELM_PRIVATE_UNLOCK(el);
                         if (rc != RBUS_ERROR_SUCCESS)
                         {
@@ -1637,7 +1639,6 @@ static void _set_callback_handler (rbusHandle_t handle, rbusMessage request, rbu
                         }
                         else
                         {
-                            setPropertyChangeComponent(el, pCompName);
                             /* ======== < Old values backup >============= */
                             if (currentData)
                             {
diff --git a/src/rbus/rbus_element.c b/src/rbus/rbus_element.c
index c6222d7..f2b2220 100644
--- a/src/rbus/rbus_element.c
+++ b/src/rbus/rbus_element.c
@@ -1199,8 +1199,7 @@ void setPropertyChangeComponent(elementNode* node, char const* componentName)
     VERIFY_NULL(node);
     if(node->changeComp)
         free(node->changeComp);
-    if(componentName)
-        node->changeComp = strdup(componentName);
+    node->changeComp = componentName ? strdup(componentName) : NULL;
     rtTime_Now(&node->changeTime);
 
 }
diff --git a/src/rbus/rbus_element.h b/src/rbus/rbus_element.h
index dfef11b..f963643 100644
--- a/src/rbus/rbus_element.h
+++ b/src/rbus/rbus_element.h
@@ -93,6 +93,7 @@ void addInstanceToElement(elementNode* node, uint32_t instNum, char const* alias
 elementNode* instantiateTableRow(elementNode* tableNode, uint32_t instNum, char const* alias);
 void deleteTableRow(elementNode* rowNode);
 void getPropertyInstanceNames(elementNode* root, char const* query, rtVector propNameList);
+/*must be called with the element's lock held*/
 void setPropertyChangeComponent(elementNode* node, char const* componentName);
 void rbusElement_mutex_destroy(void);
 
diff --git a/src/rbus/rbus_valuechange.c b/src/rbus/rbus_valuechange.c
index 8e8aef4..09dad5f 100644
--- a/src/rbus/rbus_valuechange.c
+++ b/src/rbus/rbus_valuechange.c
@@ -75,6 +75,7 @@ typedef struct ValueChangeRecord
     rbusHandle_t handle;    //needed when calling rbus_getHandler and rbusEvent_Publish
     elementNode const* node;    //used to call the rbus_getHandler is contains
     rbusProperty_t property;    //the parameter with value that gets cached
+    rtTime_t changeTime;        //when some component had last set the parameter, as that value was got
     bool removed;               //no longer in params: the polling thread, which still handles it, frees it
 } ValueChangeRecord;
 
@@ -135,7 +136,8 @@ static ValueChangeRecord* vcParams_Find(const elementNode* paramNode)
 static void rbusValueChange_poll(ValueChangeRecord* rec)
 {
     rbusProperty_t property;
-    rbusValue_t newVal, oldVal;
+    rbusValue_t newVal = NULL, oldVal = NULL, byVal = NULL;
+    bool changed = false;
 
     rbusProperty_Init(&property,rbusProperty_GetName(rec->property), NULL);
 
@@ -145,6 +147,31 @@ static void rbusValueChange_poll(ValueChangeRecord* rec)
 
     ELM_PRIVATE_LOCK(rec->node);
     int result = rec->node->cbTable.getHandler(rec->handle, property, &opts);
+    if(result == RBUS_ERROR_SUCCESS)
+    {
+        newVal = rbusProperty_GetValue(property);
+        oldVal = rbusProperty_GetValue(rec->property);
+        changed = rbusValue_Compare(newVal, oldVal) != 0;
+        if(changed)
+        {
+            /* The "by" field is set to the component's name which made the last value change.
+               The source of a value-change could be an external component calling rbus_set or the provider internally updating
+               the value.  changeComp/changeTime are updated through the rbus_set path, but not through the provider internal path.
+               We must deduce if the provider has updated the value and reflect that change to the changeComp/changeTime, right here.
+               If no component has set the value since we got the old one,
+               then we know it was the provider who updated the value we are now detecting.
+            */
+            if(rec->node->changeComp == NULL ||
+               rtTime_Compare(&rec->node->changeTime, &rec->changeTime) == 0)
+            {
+                printf("VC detected provider-side value-change oldcomp=%s elapsed=%d period=%d\n", rec->node->changeComp, rtTime_Elapsed(&rec->node->changeTime, NULL), RBUS_VALUECHANGE_PERIOD);
+                setPropertyChangeComponent((elementNode*)rec->node, rec->handle->componentName);
+            }
+            rbusValue_Init(&byVal);
+            rbusValue_SetString(byVal, rec->node->changeComp);
+        }
+        rec->changeTime = rec->node->changeTime;
+    }
     ELM_PRIVATE_UNLOCK(rec->node);
 
     if(result != RBUS_ERROR_SUCCESS)
@@ -158,38 +185,17 @@ static void rbusValueChange_poll(ValueChangeRecord* rec)
     RBUSLOG_DEBUG("%s=%s", rbusProperty_GetName(property), sValue);
     free(sValue);
 
-    newVal = rbusProperty_GetValue(property);
-    oldVal = rbusProperty_GetValue(rec->property);
-
-    if(rbusValue_Compare(newVal, oldVal))
+    if(changed)
     {
         rbusEvent_t event = {0};
         rbusObject_t data;
-        rbusValue_t byVal = NULL;
 
         RBUSLOG_INFO("value change detected for %s", rbusProperty_GetName(rec->property));
 
-        /* The "by" field is set to the component's name which made the last value change.
-           The source of a value-change could be an external component calling rbus_set or the provider internally updating
-           the value.  changeComp/changeTime are updated through the rbus_set path, but not through the provider internal path.
-           We must deduce if the provider has updated the value and reflect that change to the changeComp/changeTime, right here.
-           If we don't have a changeComp or we do but the changeTime is older then the current polling period,
-           then we know it was the provider who updated the value we are now detecting.
-        */
-        if(rec->node->changeComp == NULL || 
-           (rtTime_Elapsed(&rec->node->changeTime, NULL) >= RBUS_VALUECHANGE_PERIOD &&
-           strcmp(rec->handle->componentName, rec->node->changeComp) == 0))
-        {
-            printf("VC detected provider-side value-change oldcomp=%s elapsed=%d period=%d\n", rec->node->changeComp, rtTime_Elapsed(&rec->node->changeTime, NULL), RBUS_VALUECHANGE_PERIOD);
-            setPropertyChangeComponent((elementNode*)rec->node, rec->handle->componentName);
-        }
-
         rbusObject_Init(&data, NULL);
         rbusObject_SetValue(data, "value", newVal);
         rbusObject_SetValue(data, "oldValue", oldVal);
 
-        rbusValue_Init(&byVal);
-        rbusValue_SetString(byVal, rec->node->changeComp);
         rbusObject_SetValue(data, "by", byVal);
         rbusValue_Release(byVal);
 
@@ -333,6 +339,7 @@ void rbusValueChange_AddPropertyNode(rbusHandle_t handle, elementNode* propNode)
           the polling thread will periodically re-get and compare to detect value changes*/
         ELM_PRIVATE_LOCK(propNode);
         int result = propNode->cbTable.getHandler(handle, rec->property, &opts);
+        rec->changeTime = propNode->changeTime;
         ELM_PRIVATE_UNLOCK(propNode);
 
         if(result != RBUS_ERROR_SUCCESS)
-- 
2.43.0


From 5e6656c311aace3eee64e8cd1821e8e9a1f85d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:22 +0000
Subject: [PATCH 71/93] fix: an interval subscription to a table without rows
 never published, and one which cannot publish was accepted

---
 src/rbus/rbus.c                      | 35 ++++++++++++++--------------
 src/rbus/rbus_intervalsubscription.c |  2 ++
 2 files changed, 20 insertions(+), 17 deletions(-)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index 46d8d44..168a71d 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -1227,7 +1227,23 @@ int subscribeHandlerImpl(
     }
     else
     { 
-        if(el->type == RBUS_ELEMENT_TYPE_PROPERTY && subscription->autoPublish)
+        if(el->type == RBUS_ELEMENT_TYPE_PROPERTY && subscription->autoPublish && subscription->interval)
+        {
+            /* one record publishes for all instances, including those which are yet to come */
+            RBUSLOG_INFO("subscription with interval  %s event=%s", added ? "Add" : "Remove", subscription->eventName);
+            if(!added)
+            {
+                rbusInterval_RemoveSubscriptionRecord(handle, el, subscription);
+            }
+            else if((error = rbusInterval_AddSubscriptionRecord(handle, el, subscription)) != RBUS_ERROR_SUCCESS)
+            {
+                RBUSLOG_ERROR("rbusInterval_AddSubscriptionRecord failed with error : %d\n", error);
+                rbusSubscriptions_removeSubscription(handleInfo->subscriptions, subscription);
+                HANDLE_SUBS_MUTEX_UNLOCK(handle);
+                return error;
+            }
+        }
+        else if(el->type == RBUS_ELEMENT_TYPE_PROPERTY && subscription->autoPublish)
         {
             rtListItem item;
             rtList_GetFront(subscription->instances, &item);
@@ -1237,22 +1253,7 @@ int subscribeHandlerImpl(
 
                 rtListItem_GetData(item, (void**)&node);
 
-                if (subscription->interval)
-                {
-                    RBUSLOG_INFO("subscription with interval  %s event=%s prop=%s",
-                            added ? "Add" : "Remove", subscription->eventName, node->fullName);
-                    if(added) {
-                        if((error = rbusInterval_AddSubscriptionRecord(handle, node, subscription)) != RBUS_ERROR_SUCCESS)
-                            RBUSLOG_ERROR("rbusInterval_AddSubscriptionRecord failed with error : %d\n", error);
-                        break;
-                    }
-                    else
-                    {
-                        rbusInterval_RemoveSubscriptionRecord(handle, node, subscription);
-                        break;
-                    }
-                }
-                else if(!elementHasAutoPubSubscriptions(node, subscription))
+                if(!elementHasAutoPubSubscriptions(node, subscription))
                 {
                     /* Check if the node has other subscribers or not.  If it has other
                        subs then we don't need to either add or remove it from ValueChange */
diff --git a/src/rbus/rbus_intervalsubscription.c b/src/rbus/rbus_intervalsubscription.c
index 417e44d..9522d5d 100644
--- a/src/rbus/rbus_intervalsubscription.c
+++ b/src/rbus/rbus_intervalsubscription.c
@@ -292,6 +292,8 @@ rbusError_t rbusInterval_AddSubscriptionRecord(
         {
             RBUSLOG_ERROR("Error %d:%s failed to start the publishing thread", err, strerror(err));
             sub_Free(sub_rec);
+            ERROR_CHECK(pthread_mutex_unlock(&gMutex));
+            return RBUS_ERROR_OUT_OF_RESOURCES;
         }
     }
     ERROR_CHECK(pthread_mutex_unlock(&gMutex));
-- 
2.43.0


From c1b71f854fe8191e757b9a9986139c573149cb6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:52 +0000
Subject: [PATCH 72/93] fix: a subscription ended by the handler of its initial
 value was written to after being freed; records and memory of refused
 subscriptions

---
 src/rbus/rbus.c | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index 168a71d..808304f 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -5279,6 +5279,7 @@ static rbusError_t rbusEvent_SubscribeWithRetries(
         subInternal->sub = sub;
         subInternal->dirty = false;
         subInternal->rawData = rawData;
+        subInternal->subscriptionId = 0;
         rtVector_PushBack(handleInfo->eventSubs, subInternal);
         HANDLE_EVENTSUBS_MUTEX_UNLOCK(handle);
         if(publishOnSubscribe)
@@ -5290,7 +5291,13 @@ static rbusError_t rbusEvent_SubscribeWithRetries(
             }
         }
         rbusMessage_GetInt32(response, &subscriptionId);
-        subInternal->subscriptionId = subscriptionId;
+        /*the subscription might have been ended meanwhile, by the handler of the initial value for one*/
+        HANDLE_EVENTSUBS_MUTEX_LOCK(handle);
+        if ((subInternal = rbusEventSubscription_find(handleInfo->eventSubs, eventName, filter, interval, duration, rawData)) != NULL)
+        {
+            subInternal->subscriptionId = subscriptionId;
+        }
+        HANDLE_EVENTSUBS_MUTEX_UNLOCK(handle);
         if(response)
             rbusMessage_Release(response);
         RBUSLOG_INFO("%s subscribe retries succeeded", eventName);
@@ -5307,10 +5314,7 @@ static rbusError_t rbusEvent_SubscribeWithRetries(
             {
                 subInternal->dirty = true;
             }
-            else
-            {
-                rbusEventSubscription_free(sub);
-            }
+            rbusEventSubscription_free(sub);
             HANDLE_EVENTSUBS_MUTEX_UNLOCK(handle);
             return RBUS_ERROR_TIMEOUT;
         }
@@ -5327,9 +5331,13 @@ static rbusError_t rbusEvent_SubscribeWithRetries(
                 subInternal = rt_malloc(sizeof(rbusEventSubscriptionInternal_t));
                 subInternal->sub = sub;
                 subInternal->dirty = false;
+                subInternal->rawData = rawData;
+                subInternal->subscriptionId = 0;
                 rtVector_PushBack(handleInfo->eventSubs, subInternal);
                 RBUSLOG_INFO("EVENT_SUBSCRIPTION_ALREADY_EXIST  %s", subInternal->sub->eventName);
                 HANDLE_EVENTSUBS_MUTEX_UNLOCK(handle);
+                if(response)
+                    rbusMessage_Release(response);
                 return RBUS_ERROR_SUCCESS;
             }
             else
-- 
2.43.0


From f6926b9ebd5db69210ffb94ff693d03e37ee77c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:07 +0000
Subject: [PATCH 73/93] fix: a crash while subscriptions were being saved lost
 all of them, and a corrupted file of them could overrun memory

---
 src/rbus/rbus_subscriptions.c | 143 ++++++++++++++++------------------
 1 file changed, 69 insertions(+), 74 deletions(-)

diff --git a/src/rbus/rbus_subscriptions.c b/src/rbus/rbus_subscriptions.c
index 029651e..3f3cbed 100644
--- a/src/rbus/rbus_subscriptions.c
+++ b/src/rbus/rbus_subscriptions.c
@@ -31,6 +31,7 @@
 
 #define VERIFY_NULL(T)         if(NULL == T){ return; }
 #define CACHE_FILE_PATH_FORMAT "%s/rbus_subs_%s"
+#define CACHE_TEMP_PATH_FORMAT "%s/rbus_temp_subs_%s"
 
 struct _rbusSubscriptions
 {
@@ -439,17 +440,51 @@ static bool rbusSubscriptions_isListenerRunning(char const* listener)
     return true;
 }
 
+static char* readCachedString(rbusBuffer_t buff)
+{
+    uint16_t type, length;
+    char* s;
+
+    if(rbusBuffer_ReadUInt16(buff, &type) < 0 || rbusBuffer_ReadUInt16(buff, &length) < 0)
+        return NULL;
+    /*there is at least one character and the null terminator*/
+    if(type != RBUS_STRING || length < 2 || length > buff->posWrite - buff->posRead)
+        return NULL;
+    if(buff->data[buff->posRead] == 0 || buff->data[buff->posRead + length - 1] != 0)
+        return NULL;
+    s = rt_try_malloc(length);
+    if(!s)
+    {
+        RBUSLOG_ERROR("failed to malloc %d bytes", length);
+        return NULL;
+    }
+    rbusBuffer_Read(buff, s, length);
+    return s;
+}
+
+static int readCachedInt32(rbusBuffer_t buff, int32_t* n)
+{
+    uint16_t type, length;
+
+    if(rbusBuffer_ReadUInt16(buff, &type) < 0 || rbusBuffer_ReadUInt16(buff, &length) < 0)
+        return -1;
+    if(type != RBUS_INT32 || length != sizeof(int32_t))
+        return -1;
+    return rbusBuffer_ReadInt32(buff, n);
+}
+
 static void rbusSubscriptions_loadCache(rbusSubscriptions_t subscriptions)
 {
     struct stat st;
     long size;
-    uint16_t type, length;
+    int32_t number;
     int32_t hasFilter;
     FILE* file = NULL;
     rbusBuffer_t buff = NULL;
     rbusSubscription_t* sub = NULL;
     char filePath[256];
     bool needSave = false;
+    size_t count = 0;
     VERIFY_NULL(subscriptions);
 
     snprintf(filePath, 256, CACHE_FILE_PATH_FORMAT, subscriptions->tmpDir, subscriptions->componentName);
@@ -501,75 +536,18 @@ static void rbusSubscriptions_loadCache(rbusSubscriptions_t subscriptions)
             RBUSLOG_ERROR("failed to malloc sub");
             goto remove_bad_file;
         }
-        //read listener
-        if(rbusBuffer_ReadUInt16(buff, &type) < 0) goto remove_bad_file;
-        if(rbusBuffer_ReadUInt16(buff, &length) < 0) goto remove_bad_file;
-        if(type != RBUS_STRING || length >= RBUS_MAX_NAME_LENGTH) goto remove_bad_file;
-
-        sub->listener = rt_calloc(1, length);
-        if(!sub->listener)
-        {
-            RBUSLOG_ERROR("failed to malloc %d bytes for listener", length);
-            goto remove_bad_file;
-        }
-        memcpy(sub->listener, buff->data + buff->posRead, length);
-        buff->posRead += length;
-
-        //read eventName
-        if(rbusBuffer_ReadUInt16(buff, &type) < 0) goto remove_bad_file;
-        if(rbusBuffer_ReadUInt16(buff, &length) < 0) goto remove_bad_file;
-        if(type != RBUS_STRING || length >= RBUS_MAX_NAME_LENGTH) goto remove_bad_file;
-
-        sub->eventName = rt_try_calloc(1, length);
-        if(!sub->eventName)
-        {
-            RBUSLOG_ERROR("failed to malloc %d bytes for eventName", length);
-            goto remove_bad_file;
-        }
-        memcpy(sub->eventName, buff->data + buff->posRead, length);
-        buff->posRead += length;
-
-        //read componentId
-        if(rbusBuffer_ReadUInt16(buff, &type) < 0) goto remove_bad_file;
-        if(rbusBuffer_ReadUInt16(buff, &length) < 0) goto remove_bad_file;
-        if(type != RBUS_INT32 && length != sizeof(int32_t)) goto remove_bad_file;
-        if(rbusBuffer_ReadInt32(buff, &sub->componentId) < 0) goto remove_bad_file;
-
-        //read interval
-        if(rbusBuffer_ReadUInt16(buff, &type) < 0) goto remove_bad_file;
-        if(rbusBuffer_ReadUInt16(buff, &length) < 0) goto remove_bad_file;
-        if(type != RBUS_INT32 && length != sizeof(int32_t)) goto remove_bad_file;
-        if(rbusBuffer_ReadInt32(buff, &sub->interval) < 0) goto remove_bad_file;
-
-        //read duration        
-        if(rbusBuffer_ReadUInt16(buff, &type) < 0) goto remove_bad_file;
-        if(rbusBuffer_ReadUInt16(buff, &length) < 0) goto remove_bad_file;
-        if(type != RBUS_INT32 && length != sizeof(int32_t)) goto remove_bad_file;
-        if(rbusBuffer_ReadInt32(buff, &sub->duration) < 0) goto remove_bad_file;
-
-        //read autoPublish
-        if(rbusBuffer_ReadUInt16(buff, &type) < 0) goto remove_bad_file;
-        if(rbusBuffer_ReadUInt16(buff, &length) < 0) goto remove_bad_file;
-        if(type != RBUS_INT32 && length != sizeof(int32_t)) goto remove_bad_file;
-        if(rbusBuffer_ReadInt32(buff, (int*)&sub->autoPublish) < 0) goto remove_bad_file;
-
-        //read subscriptionId
-        if(rbusBuffer_ReadUInt16(buff, &type) < 0) goto remove_bad_file;
-        if(rbusBuffer_ReadUInt16(buff, &length) < 0) goto remove_bad_file;
-        if(type != RBUS_INT32 && length != sizeof(int32_t)) goto remove_bad_file;
-        if(rbusBuffer_ReadInt32(buff, (int*)&sub->subscriptionId) < 0) goto remove_bad_file;
-
-        //read rawData
-        if(rbusBuffer_ReadUInt16(buff, &type) < 0) goto remove_bad_file;
-        if(rbusBuffer_ReadUInt16(buff, &length) < 0) goto remove_bad_file;
-        if(type != RBUS_INT32 && length != sizeof(int32_t)) goto remove_bad_file;
-        if(rbusBuffer_ReadInt32(buff, (int*)&sub->rawData) < 0) goto remove_bad_file;
-
-        //read hasFilter
-        if(rbusBuffer_ReadUInt16(buff, &type) < 0) goto remove_bad_file;
-        if(rbusBuffer_ReadUInt16(buff, &length) < 0) goto remove_bad_file;
-        if(type != RBUS_INT32 && length != sizeof(int32_t)) goto remove_bad_file;
-        if(rbusBuffer_ReadInt32(buff, &hasFilter) < 0) goto remove_bad_file;
+        if((sub->listener = readCachedString(buff)) == NULL) goto remove_bad_file;
+        if((sub->eventName = readCachedString(buff)) == NULL) goto remove_bad_file;
+        if(readCachedInt32(buff, &sub->componentId) < 0) goto remove_bad_file;
+        if(readCachedInt32(buff, &sub->interval) < 0) goto remove_bad_file;
+        if(readCachedInt32(buff, &sub->duration) < 0) goto remove_bad_file;
+        if(readCachedInt32(buff, &number) < 0) goto remove_bad_file;
+        sub->autoPublish = number != 0;
+        if(readCachedInt32(buff, &number) < 0) goto remove_bad_file;
+        sub->subscriptionId = (uint32_t)number;
+        if(readCachedInt32(buff, &number) < 0) goto remove_bad_file;
+        sub->rawData = number != 0;
+        if(readCachedInt32(buff, &hasFilter) < 0) goto remove_bad_file;
 
         //read filter
         if(hasFilter)
@@ -635,6 +613,11 @@ remove_bad_file:
 
     if(remove(filePath) != 0)
         RBUSLOG_ERROR("failed to remove %s", filePath);
+
+    /*those which were read before it was found to be corrupted are still there*/
+    rtList_GetSize(subscriptions->subList, &count);
+    if(count)
+        rbusSubscriptions_saveCache(subscriptions);
 }
 
 static void rbusSubscriptions_saveCache(rbusSubscriptions_t subscriptions)
@@ -644,8 +627,11 @@ static void rbusSubscriptions_saveCache(rbusSubscriptions_t subscriptions)
     rtListItem item;
     rbusSubscription_t* sub;
     char filePath[256];
+    char tempPath[256];
+    bool saved;
 
     snprintf(filePath, 256, CACHE_FILE_PATH_FORMAT, subscriptions->tmpDir, subscriptions->componentName);
+    snprintf(tempPath, 256, CACHE_TEMP_PATH_FORMAT, subscriptions->tmpDir, subscriptions->componentName);
 
     RBUSLOG_DEBUG("saving Cache %s", filePath);
 
@@ -661,11 +647,12 @@ static void rbusSubscriptions_saveCache(rbusSubscriptions_t subscriptions)
         return;
     }
 
-    file = fopen(filePath, "wb");
+    /*the file is replaced only once everything is written, because this process might crash any time*/
+    file = fopen(tempPath, "wb");
 
     if(!file)
     {
-        RBUSLOG_ERROR("failed to open %s", filePath);
+        RBUSLOG_ERROR("failed to open %s", tempPath);
         return;
     }
 
@@ -678,6 +665,7 @@ static void rbusSubscriptions_saveCache(rbusSubscriptions_t subscriptions)
         {
             rbusBuffer_Destroy(buff);
             fclose(file);
+            remove(tempPath);
             return;
         }
         rbusBuffer_WriteStringTLV(buff, sub->listener, strlen(sub->listener)+1);
@@ -697,11 +685,18 @@ static void rbusSubscriptions_saveCache(rbusSubscriptions_t subscriptions)
         rtListItem_GetNext(item, &item);
     }
 
-    fwrite(buff->data, 1, buff->posWrite, file);
+    saved = fwrite(buff->data, 1, buff->posWrite, file) == (size_t)buff->posWrite;
 
     rbusBuffer_Destroy(buff);
 
-    fclose(file);
+    if(fclose(file) != 0)
+        saved = false;
+
+    if(!saved || rename(tempPath, filePath) != 0)
+    {
+        RBUSLOG_ERROR("failed to save %s", filePath);
+        remove(tempPath);
+    }
 }
 
 /*this is basicially a strcmp with the addition that it will ignore any wildcard (e.g. "*") in the event name
-- 
2.43.0


From 2a0dd5df1085d0c95c524325d9f6bf0d56da4858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:43 +0000
Subject: [PATCH 74/93] fix: a subscription waiting to be restored outlived its
 subscriber, and one by a row's alias was never restored

---
 src/rbus/rbus_subscriptions.c | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/rbus/rbus_subscriptions.c b/src/rbus/rbus_subscriptions.c
index 3f3cbed..63eff18 100644
--- a/src/rbus/rbus_subscriptions.c
+++ b/src/rbus/rbus_subscriptions.c
@@ -774,7 +774,8 @@ void rbusSubscriptions_resubscribeElementCache(rbusHandle_t handle, rbusSubscrip
             /*TODO figure out what to do if we get an error resubscribing
             It's conceivable that a provider might not like the sub due to some state change between this and the previous process run
             */
-            (void)err;
+            if(err != RBUS_ERROR_SUCCESS)
+                rbusSubscriptions_saveCache(subscriptions);/*it is in the file no longer*/
             subscriptionFree(sub);
             item = next;
         }
@@ -810,17 +811,17 @@ void rbusSubscriptions_resubscribeRowElementCache(rbusHandle_t handle, rbusSubsc
         {
             rtListItem next = NULL;
             rtListItem_GetNext(item, &next);
-            size_t len = strlen(rowNode->fullName);
-            if(sub->element == NULL && sub->tokens == NULL &&/*not already subscribed*/
-               strncmp(sub->eventName, rowNode->fullName, len) == 0 && sub->eventName[len] == '.')
+            if(sub->element == NULL && sub->tokens == NULL)/*not already subscribed*/
             {
+                /*the name might have the row's number or its alias*/
                 el = retrieveInstanceElement(handleInfo->elementRoot, sub->eventName);
-                if(el)
+                if(el && el->type != 0)
                 {
                     RBUSLOG_INFO("resubscribing %s for %s", sub->eventName, sub->listener);
                     rtList_RemoveItem(subscriptions->subList, item, NULL);
                     err = subscribeHandlerImpl(handle, true, el, sub->eventName, sub->listener, sub->componentId, sub->interval, sub->duration, sub->filter, sub->rawData, &sub->subscriptionId);
-                    (void)err;
+                    if(err != RBUS_ERROR_SUCCESS)
+                        rbusSubscriptions_saveCache(subscriptions);/*it is in the file no longer*/
                     subscriptionFree(sub);
                 }
             }
@@ -853,13 +854,15 @@ void rbusSubscriptions_handleClientDisconnect(rbusHandle_t handle, rbusSubscript
         {
             /* RDKB-38389 : Checking for elementnode existence for which the eventname is subscribed */
             el = retrieveInstanceElement(handleInfo->elementRoot, sub->eventName);
-            if(el)
+            if(el && sub->element)
             {
                 subscribeHandlerImpl(handle, false, sub->element, sub->eventName, sub->listener, sub->componentId, sub->interval, sub->duration, sub->filter, sub->rawData, NULL);
             }
             else
             {
-                RBUSLOG_WARN("rbusSubscriptions_handleClientDisconnect: unexpected! element not found");
+                /*loaded from the cache but never subscribed again*/
+                RBUSLOG_WARN("rbusSubscriptions_handleClientDisconnect: element not found");
+                rbusSubscriptions_removeSubscription(subscriptions, sub);
             }
         }
     }
-- 
2.43.0


From b40dee69d92b2957bc431698b0e0439ce6ddb05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:56 +0000
Subject: [PATCH 75/93] fix: a restored subscription got another id than its
 subscriber knows it by

---
 src/rbus/rbus.c               |  2 +-
 src/rbus/rbus_subscriptions.c | 17 ++++++++++-------
 src/rbus/rbus_subscriptions.h |  2 +-
 3 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index 808304f..8810e81 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -1192,7 +1192,7 @@ int subscribeHandlerImpl(
     {
         if(!subscription)
         {
-            subscription = rbusSubscriptions_addSubscription(handleInfo->subscriptions, listener, eventName, componentId, filter, interval, duration, autoPublish, el, rawData);
+            subscription = rbusSubscriptions_addSubscription(handleInfo->subscriptions, listener, eventName, componentId, filter, interval, duration, autoPublish, el, rawData, *subscriptionId);
             if(!subscription)
             {
                 HANDLE_SUBS_MUTEX_UNLOCK(handle);
diff --git a/src/rbus/rbus_subscriptions.c b/src/rbus/rbus_subscriptions.c
index 63eff18..fbb88e9 100644
--- a/src/rbus/rbus_subscriptions.c
+++ b/src/rbus/rbus_subscriptions.c
@@ -42,6 +42,10 @@ struct _rbusSubscriptions
     rtList subList;
 };
 
+static uint32_t nextSubscriptionId = 3; /* Starting the subscription ID with 3 as the initial 2 values are allocated for the below add listener
+                                           rtconnection create internal
+                                           client advisory */
+
 static void rbusSubscriptions_loadCache(rbusSubscriptions_t subscriptions);
 static void rbusSubscriptions_saveCache(rbusSubscriptions_t subscriptions);
 
@@ -124,15 +128,11 @@ void rbusSubscriptions_destroy(rbusSubscriptions_t subscriptions)
 static void rbusSubscriptions_onSubscriptionCreated(rbusSubscription_t* sub, elementNode* node);
 
 /*add a new subscription*/
-rbusSubscription_t* rbusSubscriptions_addSubscription(rbusSubscriptions_t subscriptions, char const* listener, char const* eventName, int32_t componentId, rbusFilter_t filter, int32_t interval, int32_t duration, bool autoPublish, elementNode* registryElem, bool rawData)
+rbusSubscription_t* rbusSubscriptions_addSubscription(rbusSubscriptions_t subscriptions, char const* listener, char const* eventName, int32_t componentId, rbusFilter_t filter, int32_t interval, int32_t duration, bool autoPublish, elementNode* registryElem, bool rawData, uint32_t subscriptionId)
 {
     rbusSubscription_t* sub;
     TokenChain* tokens;
 
-    static uint32_t subscriptionId = 3; /* Starting the subscription ID with 3 as the initial 2 values are allocated for the below add listener
-                                            rtconnection create internal
-                                            client advisory */
-
     RBUSLOG_DEBUG("adding %s %s", listener, eventName);
 
     tokens = TokenChain_create(eventName, registryElem);
@@ -161,14 +161,13 @@ rbusSubscription_t* rbusSubscriptions_addSubscription(rbusSubscriptions_t subscr
     sub->element = registryElem;
     sub->tokens = tokens;
     sub->rawData = rawData;
-    sub->subscriptionId = subscriptionId;
+    sub->subscriptionId = subscriptionId ? subscriptionId : nextSubscriptionId++;
     rtList_Create(&sub->instances);
     rtList_PushBack(subscriptions->subList, sub, NULL);
 
     rbusSubscriptions_onSubscriptionCreated(sub, subscriptions->root);
 
     rbusSubscriptions_saveCache(subscriptions);
-    subscriptionId++;
 
     return sub;
 }
@@ -585,6 +584,10 @@ static void rbusSubscriptions_loadCache(rbusSubscriptions_t subscriptions)
             }
         }
 
+        /*the subscriber knows it by its id, so none of the new ones may have it*/
+        if(sub->subscriptionId >= nextSubscriptionId)
+            nextSubscriptionId = sub->subscriptionId + 1;
+
         rtList_Create(&sub->instances);
         rtList_PushBack(subscriptions->subList, sub, NULL);
 
diff --git a/src/rbus/rbus_subscriptions.h b/src/rbus/rbus_subscriptions.h
index 55b0bca..8acc748 100644
--- a/src/rbus/rbus_subscriptions.h
+++ b/src/rbus/rbus_subscriptions.h
@@ -57,7 +57,7 @@ void rbusSubscriptions_create(rbusSubscriptions_t* subscriptions, rbusHandle_t h
 void rbusSubscriptions_destroy(rbusSubscriptions_t subscriptions);
 
 /*add a new subscription with unique key [listener, eventName, filter] and the corresponding*/
-rbusSubscription_t* rbusSubscriptions_addSubscription(rbusSubscriptions_t subscriptions, char const* listener, char const* eventName, int32_t componentId, rbusFilter_t filter, int32_t interval, int32_t duration, bool autoPublish, elementNode* registryElem, bool rawData);
+rbusSubscription_t* rbusSubscriptions_addSubscription(rbusSubscriptions_t subscriptions, char const* listener, char const* eventName, int32_t componentId, rbusFilter_t filter, int32_t interval, int32_t duration, bool autoPublish, elementNode* registryElem, bool rawData, uint32_t subscriptionId/*0 for a new one*/);
 
 /*get an existing subscription by searching for its unique key [listener, eventName, filter]*/
 rbusSubscription_t* rbusSubscriptions_getSubscription(rbusSubscriptions_t subscriptions, char const* listener, char const* eventName, int32_t componentId, rbusFilter_t filter, int32_t interval, int32_t duration, bool rawData);
-- 
2.43.0


From 8130d1c35d0948ef7b3621ba18ac3ccae02a6ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:08 +0000
Subject: [PATCH 76/93] fix: a provider was told of subscriptions which were
 there already or never, and a refused raw data subscription stayed

---
 src/rbus/rbus.c | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index 8810e81..7a6a21d 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -1143,6 +1143,24 @@ int subscribeHandlerImpl(
     if(rawData)
         autoPublish = false;
 
+    if(added && rawData && el->type != RBUS_ELEMENT_TYPE_EVENT)
+    {
+        RBUSLOG_INFO("rawDataSubscription is only allowed for events");
+        return RBUS_ERROR_INVALID_INPUT;
+    }
+
+    /* the provider's subHandler is only told of subscriptions which really start or end */
+    HANDLE_SUBS_MUTEX_LOCK(handle);
+    subscription = rbusSubscriptions_getSubscription(handleInfo->subscriptions, listener, eventName, componentId, filter, interval, duration, rawData);
+    HANDLE_SUBS_MUTEX_UNLOCK(handle);
+    if(added && subscription)
+        return RBUS_ERROR_SUBSCRIPTION_ALREADY_EXIST;
+    if(!added && !subscription)
+    {
+        RBUSLOG_ERROR("unsubscribing from event which isn't currectly subscribed to event=%s listener=%s", eventName, listener);
+        return RBUS_ERROR_INVALID_INPUT; /*unsubscribing from event which isn't currectly subscribed to*/
+    }
+
     RBUSLOG_INFO("Consumer=%s %s to event=%s", listener, added ? "SUBSCRIBED" : "UNSUBSCRIBED", eventName);
 
     /* call the provider subHandler first to see if it overrides autoPublish */
@@ -1219,14 +1237,8 @@ int subscribeHandlerImpl(
 
     /* if autoPublish and its a property being subscribed to
        then update rbusValueChange to handle the property */
-    if(rawData && el->type != RBUS_ELEMENT_TYPE_EVENT)
+    if(subscription->rawData == false)
     {
-        RBUSLOG_INFO("rawDataSubscription is only allowed for events");
-        HANDLE_SUBS_MUTEX_UNLOCK(handle);
-        return RBUS_ERROR_INVALID_INPUT;
-    }
-    else
-    { 
         if(el->type == RBUS_ELEMENT_TYPE_PROPERTY && subscription->autoPublish && subscription->interval)
         {
             /* one record publishes for all instances, including those which are yet to come */
-- 
2.43.0


From 1bb9b232b729a55f2cf7e9cc1619250b084b6171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:08 +0000
Subject: [PATCH 77/93] fix: a provider which refuses to end a subscription
 kept sending to a client that is gone

---
 src/rbus/rbus_subscriptions.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rbus/rbus_subscriptions.c b/src/rbus/rbus_subscriptions.c
index fbb88e9..39255d6 100644
--- a/src/rbus/rbus_subscriptions.c
+++ b/src/rbus/rbus_subscriptions.c
@@ -859,7 +859,9 @@ void rbusSubscriptions_handleClientDisconnect(rbusHandle_t handle, rbusSubscript
             el = retrieveInstanceElement(handleInfo->elementRoot, sub->eventName);
             if(el && sub->element)
             {
-                subscribeHandlerImpl(handle, false, sub->element, sub->eventName, sub->listener, sub->componentId, sub->interval, sub->duration, sub->filter, sub->rawData, NULL);
+                /*the listener is gone, even if the provider refuses*/
+                if(subscribeHandlerImpl(handle, false, sub->element, sub->eventName, sub->listener, sub->componentId, sub->interval, sub->duration, sub->filter, sub->rawData, NULL) != RBUS_ERROR_SUCCESS)
+                    rbusSubscriptions_removeSubscription(subscriptions, sub);
             }
             else
             {
-- 
2.43.0


From 3dca506780b6b1d4e53fe5aaefed4fc888357bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:39 +0000
Subject: [PATCH 78/93] fix: a truncated file of subscriptions left their terms
 undefined

---
 src/rbus/rbus_subscriptions.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/rbus/rbus_subscriptions.c b/src/rbus/rbus_subscriptions.c
index 39255d6..cd351c3 100644
--- a/src/rbus/rbus_subscriptions.c
+++ b/src/rbus/rbus_subscriptions.c
@@ -464,12 +464,14 @@ static char* readCachedString(rbusBuffer_t buff)
 static int readCachedInt32(rbusBuffer_t buff, int32_t* n)
 {
     uint16_t type, length;
+    int32_t value;
 
     if(rbusBuffer_ReadUInt16(buff, &type) < 0 || rbusBuffer_ReadUInt16(buff, &length) < 0)
         return -1;
-    if(type != RBUS_INT32 || length != sizeof(int32_t))
+    if(type != RBUS_INT32 || length != sizeof(int32_t) || rbusBuffer_ReadInt32(buff, &value) < 0)
         return -1;
-    return rbusBuffer_ReadInt32(buff, n);
+    *n = value;
+    return 0;
 }
 
 static void rbusSubscriptions_loadCache(rbusSubscriptions_t subscriptions)
-- 
2.43.0


From afb1fa5825b6e88a5cae8d84b976bd0b58836a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:05 +0000
Subject: [PATCH 79/93] fix: a subscription which could not be restored was
 freed twice when the provider closed

---
 src/rbus/rbus_subscriptions.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/rbus/rbus_subscriptions.c b/src/rbus/rbus_subscriptions.c
index cd351c3..5981463 100644
--- a/src/rbus/rbus_subscriptions.c
+++ b/src/rbus/rbus_subscriptions.c
@@ -104,6 +104,12 @@ static void subscriptionFree(void* p)
     free(sub);
 }
 
+/*takes a subscription off its list, which otherwise would free it again when it's destroyed*/
+static void subscriptionKeep(void* p)
+{
+    (void)p;
+}
+
 void rbusSubscriptions_create(rbusSubscriptions_t* subscriptions, rbusHandle_t handle, char const* componentName, elementNode* root, const char* tmpDir)
 {
     *subscriptions = rt_malloc(sizeof(struct _rbusSubscriptions));
@@ -774,7 +780,7 @@ void rbusSubscriptions_resubscribeElementCache(rbusHandle_t handle, rbusSubscrip
             rbusError_t err;
             RBUSLOG_INFO("resubscribing %s for %s", sub->eventName, sub->listener);
             rtListItem_GetNext(item, &next);
-            rtList_RemoveItem(subscriptions->subList, item, NULL);/*remove before calling subscribeHandlerImpl to avoid dupes in cache file*/
+            rtList_RemoveItem(subscriptions->subList, item, subscriptionKeep);/*remove before calling subscribeHandlerImpl to avoid dupes in cache file*/
             err = subscribeHandlerImpl(handle, true, el, sub->eventName, sub->listener, sub->componentId, sub->interval, sub->duration, sub->filter, sub->rawData, &sub->subscriptionId);
             /*TODO figure out what to do if we get an error resubscribing
             It's conceivable that a provider might not like the sub due to some state change between this and the previous process run
@@ -823,7 +829,7 @@ void rbusSubscriptions_resubscribeRowElementCache(rbusHandle_t handle, rbusSubsc
                 if(el && el->type != 0)
                 {
                     RBUSLOG_INFO("resubscribing %s for %s", sub->eventName, sub->listener);
-                    rtList_RemoveItem(subscriptions->subList, item, NULL);
+                    rtList_RemoveItem(subscriptions->subList, item, subscriptionKeep);
                     err = subscribeHandlerImpl(handle, true, el, sub->eventName, sub->listener, sub->componentId, sub->interval, sub->duration, sub->filter, sub->rawData, &sub->subscriptionId);
                     if(err != RBUS_ERROR_SUCCESS)
                         rbusSubscriptions_saveCache(subscriptions);/*it is in the file no longer*/
-- 
2.43.0


From 9e4932bd1d1a639d288a20d700c0d6c032755c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:10 +0000
Subject: [PATCH 80/93] fix: an event on its way to a closed component was
 given to another

---
 src/rbus/rbus_handle.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rbus/rbus_handle.c b/src/rbus/rbus_handle.c
index 3025718..9c630ce 100644
--- a/src/rbus/rbus_handle.c
+++ b/src/rbus/rbus_handle.c
@@ -141,11 +141,11 @@ struct _rbusHandle* rbusHandleList_GetByComponentID(int32_t componentId)
             handle = (struct _rbusHandle*)rtVector_At(gHandleList, i);
             if(handle->componentId == componentId)
             {
-                break;
+                return handle;
             }
         }
     }
-    return handle;
+    return NULL;
 }
 
 struct _rbusHandle* rbusHandleList_GetByName(char const* componentName)
-- 
2.43.0


From 0d0edb6a1912977cb839a9c32806836b24068fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:52 +0000
Subject: [PATCH 81/93] fix: a subscriber at intervals was told of changes when
 somebody else watched for them

---
 src/rbus/rbus.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index 7a6a21d..2e7d482 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -6145,9 +6145,14 @@ rbusError_t  rbusEvent_Publish(
         if(eventData->type == RBUS_EVENT_VALUE_CHANGED)
         {
 
-            /* if the subscriber has a filter we check the filter to determine if we publish to them.
+            /* a subscriber which asked for the value at intervals isn't told of its changes.
+            if the subscriber has a filter we check the filter to determine if we publish to them.
             if the subscriber does not have a filter, we publish always to them*/
-            if(subscription->filter)
+            if(subscription->interval)
+            {
+                publish = false;
+            }
+            else if(subscription->filter)
             {
                 /*We publish an event only when the value crosses the filter threshold boundary.
                 When the value crosses into the threshold we publish a single event signally the filter started matching.
-- 
2.43.0


From 6a36ad3b1af7cf86138edc3c33ee8e56881b5c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:12 +0000
Subject: [PATCH 82/93] fix: a malformed request for a direct connection
 crashed the provider, and its TCP address was not terminated

---
 src/rbus/rbus.c | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index 2e7d482..c174406 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -2862,6 +2862,13 @@ static void _create_direct_connection_callback_handler (rbusHandle_t handle, rbu
 
     rbusMessage_Init(response);
 
+    if (!consumerName || !paramName || !consumerToBrokerConf)
+    {
+        RBUSLOG_WARN("malformed request for a direct connection");
+        rbusMessage_SetInt32(*response, RBUSCORE_ERROR_INVALID_PARAM);
+        return;
+    }
+
     el = retrieveInstanceElementEx(handle, handleInfo->elementRoot, paramName, true);
 
     if (el)
@@ -2874,15 +2881,16 @@ static void _create_direct_connection_callback_handler (rbusHandle_t handle, rbu
         {
             char ip[128];
             // the length of 6 for "tcp://"
-            char const* p = strrchr(consumerToBrokerConf + 6, ':');
-            if (!p)
+            char const* p = strlen(consumerToBrokerConf) > 6 ? strrchr(consumerToBrokerConf + 6, ':') : NULL;
+            if (!p || (size_t)(p - consumerToBrokerConf) >= sizeof(ip))
             {
                 RBUSLOG_WARN("invalid address string:%s", consumerToBrokerConf);
                 ret = RBUSCORE_ERROR_INVALID_PARAM;
             }
             else
             {
-                strncpy(ip, consumerToBrokerConf, (p - consumerToBrokerConf));
+                memcpy(ip, consumerToBrokerConf, (p - consumerToBrokerConf));
+                ip[p - consumerToBrokerConf] = '\0';
                 RBUSLOG_DEBUG ("parsing ip address:%s", ip);
             
                 //FIXME :: The port must be within 65535 and unique to the consumer.
@@ -2935,6 +2943,13 @@ static void _close_direct_connection_callback_handler (rbusHandle_t handle, rbus
 
     rbusMessage_Init(response);
 
+    if (!consumerName || !paramName)
+    {
+        RBUSLOG_WARN("malformed request to end a direct connection");
+        rbusMessage_SetInt32(*response, RBUSCORE_ERROR_INVALID_PARAM);
+        return;
+    }
+
     el = retrieveInstanceElement(handleInfo->elementRoot, paramName);
     if (el)
     {
-- 
2.43.0


From df9eaffdbcc880e3cdaaf330e52eb9baed53b109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:12 +0000
Subject: [PATCH 83/93] fix: a small request to get values that claimed to have
 many made the provider use any amount of memory

---
 src/rbus/rbus.c | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index c174406..099428e 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -2060,7 +2060,7 @@ static rbusError_t _get_single_dml_handler (rbusHandle_t handle, char const *par
 
 static void _get_callback_handler (rbusHandle_t handle, rbusMessage request, rbusMessage *response)
 {
-    int paramSize = 1, i = 0;
+    int paramSize = 1, numProperties = 0, i = 0;
     rbusError_t result = RBUS_ERROR_SUCCESS;
     char const *parameterName = NULL;
     char const *pCompName = NULL;
@@ -2081,11 +2081,6 @@ static void _get_callback_handler (rbusHandle_t handle, rbusMessage request, rbu
         properties = rt_try_malloc(paramSize*sizeof(rbusProperty_t));
         if(properties)
         {
-            for(i = 0; i < paramSize; i++)
-            {
-                rbusProperty_Init(&properties[i], NULL, NULL);
-            }
-
             for(i = 0; i < paramSize; i++)
             {
                 parameterName = NULL;
@@ -2096,6 +2091,10 @@ static void _get_callback_handler (rbusHandle_t handle, rbusMessage request, rbu
                     break;
                 }
 
+                /* one by one, as the number of parameters the request claims need not be the number it has */
+                rbusProperty_Init(&properties[i], NULL, NULL);
+                numProperties = i + 1;
+
                 RBUSLOG_DEBUG("Param Name [%d]:[%s]", i, parameterName);
 
                 rbusProperty_SetName(properties[i], parameterName);
@@ -2129,7 +2128,7 @@ static void _get_callback_handler (rbusHandle_t handle, rbusMessage request, rbu
                     }
                     /* Release the memory */
                     rbusProperty_Release(xproperties);
-                    for (i = 0; i < paramSize; i++)
+                    for (i = 0; i < numProperties; i++)
                     {
                         rbusProperty_Release(properties[i]);
                     }
@@ -2165,7 +2164,7 @@ static void _get_callback_handler (rbusHandle_t handle, rbusMessage request, rbu
             }
         
             /* Free the memory, regardless of success or not.. */
-            for (i = 0; i < paramSize; i++)
+            for (i = 0; i < numProperties; i++)
             {
                 rbusProperty_Release(properties[i]);
             }
-- 
2.43.0


From 9034df8a88a9fb95a52d0813ab19334e974e7c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:12 +0000
Subject: [PATCH 84/93] fix: a malformed request to subscribe was answered with
 no result

---
 src/core/rbuscore.c | 7 ++++++-
 src/rbus/rbus.c     | 5 +++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/core/rbuscore.c b/src/core/rbuscore.c
index 29d87b5..d5e4d7a 100644
--- a/src/core/rbuscore.c
+++ b/src/core/rbuscore.c
@@ -1286,7 +1286,12 @@ static int subscription_handler(const char *not_used, const char * method_name,
             rbusMessage_SetInt32(*out, ret);
         }
     }
-    
+    else
+    {
+        RBUSCORELOG_ERROR("Malformed subscription request.");
+        rbusMessage_SetInt32(*out, RBUSCORE_ERROR_INVALID_PARAM);
+    }
+
     return 0;
 }
 
diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index 099428e..751d0c7 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -2839,6 +2839,11 @@ static void _subscribe_callback_handler (rbusHandle_t handle, rbusMessage reques
             rbusMessage_SetInt32(*response, subscriptionId);
         }
     }
+    else
+    {
+        RBUSLOG_ERROR("Malformed subscription request.");
+        rbusMessage_SetInt32(*response, RBUSCORE_ERROR_INVALID_PARAM);
+    }
 }
 
 #define RBUS_DAEMON_CONF_LENGTH     256
-- 
2.43.0


From c1dc4e5f88a20a70cb3c9f9d97dad0dce650e351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:07 +0000
Subject: [PATCH 85/93] fix: refusing the name of a subscription leaked what
 had been made of it

---
 src/rbus/rbus_tokenchain.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rbus/rbus_tokenchain.c b/src/rbus/rbus_tokenchain.c
index f86639d..a7f28c9 100644
--- a/src/rbus/rbus_tokenchain.c
+++ b/src/rbus/rbus_tokenchain.c
@@ -220,7 +220,7 @@ TokenChain* TokenChain_create(char const* sourceName, elementNode* regNode)
 
 tokenChainError:
 
-    next = chain->last;
+    /*next is the first token made so far*/
     while(next)
     {
         Token* last = next;
-- 
2.43.0


From 12ac8d09c2d7a2eecc98db3b660598854724a509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:19:53 +0000
Subject: [PATCH 86/93] fix: an answer of the router whose count and items
 differ made components read and write beyond their memory

---
 src/core/rbuscore.c | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/core/rbuscore.c b/src/core/rbuscore.c
index d5e4d7a..a0eb9b2 100644
--- a/src/core/rbuscore.c
+++ b/src/core/rbuscore.c
@@ -1915,7 +1915,7 @@ rbusCoreError_t rbus_discoverWildcardDestinations(const char * expression, int *
 
         if((RT_OK == rtMessage_GetInt32(msg, RTM_DISCOVERY_RESULT, &result)) && (RT_OK == result))
         {
-            int32_t size, length, i;
+            int32_t size = 0, length = 0, i;
 
             rtMessage_GetInt32(msg, RTM_DISCOVERY_COUNT, &size);
             rtMessage_GetArrayLength(msg, RTM_DISCOVERY_ITEMS, &length);
@@ -1923,9 +1923,9 @@ rbusCoreError_t rbus_discoverWildcardDestinations(const char * expression, int *
             if(size != length)
             {
                 RBUSCORELOG_ERROR("rbus_resolveWildcardDestination size missmatch");
+                ret = RBUSCORE_ERROR_MALFORMED_RESPONSE;
             }
-
-            if(size && length)
+            else if(size && length)
             {
                 char **array_ptr = (char **)rt_try_malloc(size * sizeof(char *));
                 *count = size;
@@ -1940,6 +1940,8 @@ rbusCoreError_t rbus_discoverWildcardDestinations(const char * expression, int *
                             for (int j = 0; j < i; j++)
                                 free(array_ptr[j]);
                             free(array_ptr);
+                            *destinations = NULL;
+                            *count = 0;
                             RBUSCORELOG_ERROR("Read/Memory allocation failure");
                             ret = RBUSCORE_ERROR_GENERAL;
                             break;
@@ -1996,7 +1998,7 @@ rbusCoreError_t rbus_discoverObjectElements(const char * object, int * count, ch
 
     if(RT_OK == err)
     {
-        int32_t size, length, i;
+        int32_t size = 0, length = 0, i;
         const char * value = NULL;
         char **array_ptr = NULL;
 
@@ -2008,6 +2010,8 @@ rbusCoreError_t rbus_discoverObjectElements(const char * object, int * count, ch
         if(size != length)
         {
             RBUSCORELOG_ERROR("rbus_GetElementsAddedByObject size missmatch");
+            ret = RBUSCORE_ERROR_MALFORMED_RESPONSE;
+            size = 0;
         }
 
         *count = size;
@@ -2027,6 +2031,7 @@ rbusCoreError_t rbus_discoverObjectElements(const char * object, int * count, ch
                         free(array_ptr);
                         array_ptr=NULL;
                         *elements = NULL;
+                        *count = 0;
                         RBUSCORELOG_ERROR("Read/Memory allocation failure");
                         ret = RBUSCORE_ERROR_GENERAL;
                         break;
@@ -2100,6 +2105,8 @@ rbusCoreError_t rbus_discoverElementObjects(const char* element, int * count, ch
                             for (int j = 0; j < i; j++)
                                 free(array_ptr[j]);
                             free(array_ptr);
+                            *objects = NULL;
+                            *count = 0;
                             RBUSCORELOG_ERROR("Read/Memory allocation failure");
                             ret = RBUSCORE_ERROR_GENERAL;
                             break;
@@ -2262,7 +2269,7 @@ rbusCoreError_t rbus_discoverRegisteredComponents(int * count, char *** componen
 
     if(RT_OK == err)
     {
-        int32_t size, length, i;
+        int32_t size = 0, length = 0, i;
         const char * value = NULL;
 
         rtMessage_GetInt32(msg, RTM_DISCOVERY_COUNT, &size);
@@ -2271,6 +2278,9 @@ rbusCoreError_t rbus_discoverRegisteredComponents(int * count, char *** componen
         if(size != length)
         {
             RBUSCORELOG_ERROR("rbus_registeredComponents size missmatch");
+            rtMessage_Release(msg);
+            rtMessage_Release(out);
+            return RBUSCORE_ERROR_MALFORMED_RESPONSE;
         }
 
         char **array_ptr = (char **)rt_try_malloc(size * sizeof(char *));
@@ -2286,6 +2296,8 @@ rbusCoreError_t rbus_discoverRegisteredComponents(int * count, char *** componen
                     for (int j = 0; j < i; j++)
                         free(array_ptr[j]);
                     free(array_ptr);
+                    *components = NULL;
+                    *count = 0;
                     RBUSCORELOG_ERROR("Read/Memory allocation failure");
                     ret = RBUSCORE_ERROR_GENERAL;
                     break;
-- 
2.43.0


From e1958df37b0ff2aa84073eb02a78c9d049b88298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:22 +0000
Subject: [PATCH 87/93] fix: an event without a name crashed the component it
 was sent to

---
 src/core/rbuscore.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/rbuscore.c b/src/core/rbuscore.c
index a0eb9b2..a57097f 100644
--- a/src/core/rbuscore.c
+++ b/src/core/rbuscore.c
@@ -1481,7 +1481,7 @@ static void master_event_callback(rtMessageHeader const* hdr, uint8_t const* dat
     err = rbusMessage_GetString(msg, &object_name);
     err = rbusMessage_GetInt32(msg, &is_rbus_flag);
     rbusMessage_EndMetaSectionRead(msg);
-    if(RT_OK != err)
+    if(RT_OK != err || NULL == event_name)
     {
         RBUSCORELOG_ERROR("Event message doesn't contain an event name.");
         rbusMessage_Release(msg);
-- 
2.43.0


From 0dc2816ed6266c602931de9bca1e293bfeed0cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:22 +0000
Subject: [PATCH 88/93] fix: a malformed answer with the names of rows was
 taken for rows

---
 src/rbus/rbus.c | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index 751d0c7..02e470c 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -4868,7 +4868,7 @@ rbusError_t rbusTable_getRowNames(
 
         if((errorcode == RBUS_ERROR_SUCCESS) || (legacyRetCode == RBUS_LEGACY_ERR_SUCCESS))
         {
-            int count, i;
+            int count = 0, i;
             rbusRowName_t* tmpNames = NULL;
 
             errorcode = RBUS_ERROR_SUCCESS;
@@ -4894,8 +4894,19 @@ rbusError_t rbusTable_getRowNames(
                 char const* alias = NULL;
                 char fullName[RBUS_MAX_NAME_LENGTH];
 
-                rbusMessage_GetInt32(response, &instNum);
-                rbusMessage_GetString(response, &alias);
+                if(rbusMessage_GetInt32(response, &instNum) != RT_OK || rbusMessage_GetString(response, &alias) != RT_OK)
+                {
+                    RBUSLOG_ERROR("getparamnames %s malformed response", tableName);
+                    while(i-- > 0)
+                    {
+                        free((char*)tmpNames[i].name);
+                        free((char*)tmpNames[i].alias);
+                    }
+                    free(tmpNames);
+                    tmpNames = NULL;
+                    errorcode = RBUS_ERROR_INVALID_RESPONSE_FROM_DESTINATION;
+                    break;
+                }
                 snprintf(fullName, RBUS_MAX_NAME_LENGTH, "%s%u.", tableName, (uint32_t)instNum);
                 tmpNames[i].name = strdup(fullName);
                 tmpNames[i].instNum = instNum;
-- 
2.43.0


From 3618b6d7188934d99c182507164f36f1faf30df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:22 +0000
Subject: [PATCH 89/93] fix: a malformed answer with the names of elements
 crashed the component that asked

---
 src/rbus/rbus.c | 54 +++++++++++++++++++++++++++++++------------------
 1 file changed, 34 insertions(+), 20 deletions(-)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index 02e470c..5314fbe 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -5030,29 +5030,43 @@ rbusError_t rbusElementInfo_get(
                 RBUSLOG_DEBUG("invokeRemoteMethod %s %s success: count=%d", METHOD_GETPARAMETERNAMES, elemName, count);
                 if(count > 0)
                 {
-                    runningCount += count;
-                    if(*elemInfo == NULL)
-                        *elemInfo = rt_try_malloc(runningCount * sizeof(rbusElementInfo_t));
-                    else
-                        *elemInfo = rt_try_realloc(*elemInfo, runningCount * sizeof(rbusElementInfo_t));
-                    if(!*elemInfo)
+                    rbusElementInfo_t* infos = rt_try_realloc(*elemInfo, ((size_t)startIndex + count) * sizeof(rbusElementInfo_t));
+                    if(!infos)
                     {
-                        RBUSLOG_ERROR("failed to malloc %d element infos", runningCount);
-                        return RBUS_ERROR_OUT_OF_RESOURCES;
+                        RBUSLOG_ERROR("failed to malloc %d element infos", count);
+                        errorcode = RBUS_ERROR_OUT_OF_RESOURCES;
                     }
-                    for(i = 0; i < runningCount-1; ++i)
-                       (*elemInfo)[i].next = &(*elemInfo)[i+1];
-                    (*elemInfo)[runningCount-1].next = NULL;
-                }
+                    else
+                    {
+                        *elemInfo = infos;
+                        for(i = startIndex; i < startIndex + count; ++i)
+                        {
+                            char const* name = NULL;
+                            int32_t type = 0, access = 0;
 
-                for(i = startIndex; i < runningCount; ++i)
-                {
-                    rbusMessage_GetString(response, (char const**)&(*elemInfo)[i].name);
-                    rbusMessage_GetInt32(response, (int32_t*)&(*elemInfo)[i].type);
-                    rbusMessage_GetInt32(response, (int32_t*)&(*elemInfo)[i].access);
-                    (*elemInfo)[i].name = strdup((*elemInfo)[i].name);
-                    (*elemInfo)[i].component = strdup(destinations[d]);
-                    RBUSLOG_DEBUG("adding name %s", (*elemInfo)[i].name);
+                            if(rbusMessage_GetString(response, &name) != RT_OK || name == NULL ||
+                               rbusMessage_GetInt32(response, &type) != RT_OK ||
+                               rbusMessage_GetInt32(response, &access) != RT_OK)
+                            {
+                                RBUSLOG_ERROR("%s %s got a malformed response from %s", METHOD_GETPARAMETERNAMES, elemName, destinations[d]);
+                                errorcode = RBUS_ERROR_INVALID_RESPONSE_FROM_DESTINATION;
+                                break;
+                            }
+                            infos[i].name = strdup(name);
+                            infos[i].component = strdup(destinations[d]);
+                            infos[i].type = type;
+                            infos[i].access = access;
+                            RBUSLOG_DEBUG("adding name %s", infos[i].name);
+                        }
+                        runningCount = i;
+                        for(i = 0; i < runningCount; ++i)
+                            infos[i].next = i + 1 < runningCount ? &infos[i+1] : NULL;
+                        if(runningCount == 0)
+                        {
+                            free(infos);
+                            *elemInfo = NULL;
+                        }
+                    }
                 }
             }
             else
-- 
2.43.0


From 4d964be422fed55040d7a109507a8977f7d220c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:39 +0000
Subject: [PATCH 90/93] fix: a malformed answer to a subscription leaked, or
 decided its outcome by chance

---
 src/rbus/rbus.c                | 2 ++
 src/rbus/rbus_asyncsubscribe.c | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index 5314fbe..6c99284 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -5409,6 +5409,8 @@ static rbusError_t rbusEvent_SubscribeWithRetries(
         {
             RBUSLOG_WARN("%s subscribe retries failed due to core error %d", eventName, coreerr);
             rbusEventSubscription_free(sub);
+            if(response)
+                rbusMessage_Release(response);
             return RBUS_ERROR_BUS_ERROR;
         }
     }
diff --git a/src/rbus/rbus_asyncsubscribe.c b/src/rbus/rbus_asyncsubscribe.c
index 48d0b75..d54b92f 100644
--- a/src/rbus/rbus_asyncsubscribe.c
+++ b/src/rbus/rbus_asyncsubscribe.c
@@ -176,7 +176,7 @@ static void rbusAsyncSubscribeRetrier_SendSubscriptionRequests()
         {
             rbusCoreError_t coreerr;
             uint32_t elapsed;
-            int providerError;
+            int providerError = RBUS_ERROR_SUCCESS;
             rbusMessage response = NULL;
             uint32_t subscriptionId = 0;
 
-- 
2.43.0


From fdc44cdbb886e10aebc9e7dc57a5c3530ee4e715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:39 +0000
Subject: [PATCH 91/93] fix: a malformed request to end a session ended the
 session manager

---
 src/session_manager/session_manager.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/session_manager/session_manager.c b/src/session_manager/session_manager.c
index 936d3d9..484e40b 100644
--- a/src/session_manager/session_manager.c
+++ b/src/session_manager/session_manager.c
@@ -113,7 +113,8 @@ static rbusError_t sessionManager_methodHandler(rbusHandle_t handle,
         int sessionid = 0;
         int result = 0;
         prop = rbusObject_GetProperties(inParams);
-        if ((prop) && (sessionid = rbusValue_GetInt32(rbusProperty_GetValue(prop))))
+        rbusValue_t value = prop ? rbusProperty_GetValue(prop) : NULL;
+        if (value && (rbusValue_GetInt32Ex(value, &sessionid) == RBUS_VALUE_ERROR_SUCCESS) && sessionid)
         {
             if(sessionid == g_current_session_id)
             {
-- 
2.43.0


From 95f3a8b8405998c920b3cb2cabb285747b849017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:40 +0000
Subject: [PATCH 92/93] fix: a malformed answer of the session manager crashed
 who asked, and asking without one leaked

---
 src/rbus/rbus.c | 64 +++++++++++++++++++++++++++++++++----------------
 1 file changed, 44 insertions(+), 20 deletions(-)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index 6c99284..1aa3bac 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -6480,6 +6480,17 @@ rbusError_t rbusMethod_SendAsyncResponse(
     return RBUS_ERROR_SUCCESS;
 }
 
+/*the index-th value of an answer of the session manager, false if it has none or another type*/
+static bool _get_session_answer(rbusObject_t outParams, int index, int32_t* data)
+{
+    rbusProperty_t prop = outParams ? rbusObject_GetProperties(outParams) : NULL;
+    rbusValue_t value;
+    while (prop && index--)
+        prop = rbusProperty_GetNext(prop);
+    value = prop ? rbusProperty_GetValue(prop) : NULL;
+    return value && rbusValue_GetInt32Ex(value, data) == RBUS_VALUE_ERROR_SUCCESS;
+}
+
 rbusError_t rbus_createSession(rbusHandle_t handle, uint32_t *pSessionId)
 {
     (void)handle;
@@ -6490,25 +6501,31 @@ rbusError_t rbus_createSession(rbusHandle_t handle, uint32_t *pSessionId)
         *pSessionId = 0;
         if ((rc = rbusMethod_Invoke(handle, RBUS_SMGR_METHOD_REQUEST_SESSION_ID, NULL, &outParams)) == RBUS_ERROR_SUCCESS)
         {
-            rbusProperty_t prop = NULL;
-            prop = rbusObject_GetProperties(outParams);
-            int result = rbusValue_GetInt32(rbusProperty_GetValue(prop));
-            if (RBUS_ERROR_SUCCESS != result)
+            int32_t result = 0;
+            int32_t sessionId = 0;
+            if (!_get_session_answer(outParams, 0, &result))
+            {
+                RBUSLOG_ERROR("Malformed response from session manager.\n");
+                rc = RBUS_ERROR_INVALID_RESPONSE_FROM_DESTINATION;
+            }
+            else if (RBUS_ERROR_SUCCESS != result)
             {
                 RBUSLOG_ERROR("Session manager reports internal error %d from %s for the object %s", rc, handle->componentName, RBUS_SMGR_DESTINATION_NAME);
                 rc = RBUS_ERROR_SESSION_ALREADY_EXIST;
             }
             else
             {
-                prop = rbusProperty_GetNext(prop);
                 /* Get current session id*/
-                if (prop)
+                if (_get_session_answer(outParams, 1, &sessionId))
                 {
-                   *pSessionId = rbusValue_GetInt32(rbusProperty_GetValue(prop));
+                    *pSessionId = sessionId;
                     RBUSLOG_INFO("Received new session id %u", *pSessionId);
                 }
                 else
+                {
                     RBUSLOG_ERROR("Malformed response from session manager.\n");
+                    rc = RBUS_ERROR_INVALID_RESPONSE_FROM_DESTINATION;
+                }
             }
         }
         else
@@ -6537,31 +6554,36 @@ rbusError_t rbus_getCurrentSession(rbusHandle_t handle, uint32_t *pSessionId)
         *pSessionId = 0;
         if ((rc =  rbusMethod_Invoke(handle, RBUS_SMGR_METHOD_GET_CURRENT_SESSION_ID, NULL, &outParams)) == RBUS_ERROR_SUCCESS)
         {
-            rbusProperty_t prop = NULL;
-            prop = rbusObject_GetProperties(outParams);
-            int result = rbusValue_GetInt32(rbusProperty_GetValue(prop));
-            if (RBUS_ERROR_SUCCESS != result)
+            int32_t result = 0;
+            int32_t sessionId = 0;
+            if (!_get_session_answer(outParams, 0, &result))
+            {
+                RBUSLOG_ERROR("Malformed response from session manager.\n");
+                rc = RBUS_ERROR_INVALID_RESPONSE_FROM_DESTINATION;
+            }
+            else if (RBUS_ERROR_SUCCESS != result)
             {
                 RBUSLOG_ERROR("Session manager reports internal error %d from %s for the object %s", rc, handle->componentName, RBUS_SMGR_DESTINATION_NAME);
                 rc = RBUS_ERROR_SESSION_ALREADY_EXIST;
             }
             else
             {
-                prop = rbusProperty_GetNext(prop);
                 /* Get current session id*/
-                if (prop)
+                if (_get_session_answer(outParams, 1, &sessionId))
                 {
-                    *pSessionId = rbusValue_GetInt32(rbusProperty_GetValue(prop));
+                    *pSessionId = sessionId;
                     RBUSLOG_INFO("Received new session id %u", *pSessionId);
                 }
                 else
+                {
                     RBUSLOG_ERROR("Malformed response from session manager.\n");
+                    rc = RBUS_ERROR_INVALID_RESPONSE_FROM_DESTINATION;
+                }
             }
         }
         else
         {
             RBUSLOG_ERROR("Failed to communicated with session manager.");
-            return rc;
         }
     }
     else
@@ -6596,12 +6618,14 @@ rbusError_t rbus_closeSession(rbusHandle_t handle, uint32_t sessionId)
 
         if ((rc = rbusMethod_Invoke(handle, RBUS_SMGR_METHOD_END_SESSION, inParams, &outParams)) == RBUS_ERROR_SUCCESS)
         {
-            VERIFY_NULL(outParams);
-            rbusProperty_t prop = NULL;
-            prop = rbusObject_GetProperties(outParams);
-            int result = rbusValue_GetInt32(rbusProperty_GetValue(prop));
+            int32_t result = 0;
 
-            if (RBUS_ERROR_SUCCESS == result)
+            if (!_get_session_answer(outParams, 0, &result))
+            {
+                RBUSLOG_ERROR("Malformed response from session manager.\n");
+                rc = RBUS_ERROR_INVALID_RESPONSE_FROM_DESTINATION;
+            }
+            else if (RBUS_ERROR_SUCCESS == result)
             {
                 RBUSLOG_INFO("Successfully ended session %u.", sessionId);
             }
-- 
2.43.0


From 7593b797e1d8b9897c49ef4d60f73139a067e5c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:25 +0000
Subject: [PATCH 93/93] fix: pending asynchronous subscriptions were used after
 they were freed, and not all forgotten on closing

The retrying thread used its list without the lock while others removed from it, only the first
subscription of a closed component was removed, unsubscribing did not end a pending subscription,
and the time allowed was not the one asked for.
---
 src/rbus/rbus.c                |  13 +-
 src/rbus/rbus_asyncsubscribe.c | 237 ++++++++++++++++++++-------------
 src/rbus/rbus_asyncsubscribe.h |   2 +-
 3 files changed, 156 insertions(+), 96 deletions(-)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index 1aa3bac..c19b5e5 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -3299,6 +3299,8 @@ rbusError_t rbus_close(rbusHandle_t handle)
 
     RBUSLOG_INFO("rbus close for (%s)", handleInfo->componentName);
 
+    rbusAsyncSubscribe_CloseHandle(handle);//called before eventSubs are destroyed, to which it may still add
+
     LockMutex();
     char filename[RTMSG_HEADER_MAX_TOPIC_LENGTH];
     snprintf(filename, RTMSG_HEADER_MAX_TOPIC_LENGTH-1, "%s%d_%d", "/tmp/.rbus/", getpid(), handleInfo->componentId);
@@ -3349,8 +3351,6 @@ rbusError_t rbus_close(rbusHandle_t handle)
 
     rbusValueChange_CloseHandle(handle);//called before freeElementNode below
 
-    rbusAsyncSubscribe_CloseHandle(handle);
-
     if(handleInfo->elementRoot)
     {
         freeElementNode(handleInfo->elementRoot);
@@ -5278,7 +5278,7 @@ static rbusError_t rbusEvent_SubscribeWithRetries(
     if (sub->asyncHandler)
     {
         //FIXME: this should take the payload too (mrollins) because rbus_asynsubscribe is passing NULL for filter to rbus_subscribeToEvent
-        rbusAsyncSubscribe_AddSubscription(sub, payload);
+        rbusAsyncSubscribe_AddSubscription(sub, payload, destNotFoundTimeout > 0 ? (uint32_t)destNotFoundTimeout : 0);
 
         rbusMessage_Release(payload);
         return RBUS_ERROR_SUCCESS;
@@ -5640,9 +5640,12 @@ rbusError_t rbusEvent_Unsubscribe(
     }
     else
     {
-        RBUSLOG_INFO("%s no existing subscription found", eventName);
+        rbusEventSubscription_t pending = {0};
+        rbusError_t errorcode;
+        pending.eventName = eventName;
+        errorcode = _rbus_AsyncSubscribe_remove_subscription(handle, &pending);
         HANDLE_EVENTSUBS_MUTEX_UNLOCK(handle);
-        return RBUS_ERROR_INVALID_OPERATION; //TODO - is the the right error to return
+        return errorcode;
     }
     HANDLE_EVENTSUBS_MUTEX_UNLOCK(handle);
     return RBUS_ERROR_SUCCESS;
diff --git a/src/rbus/rbus_asyncsubscribe.c b/src/rbus/rbus_asyncsubscribe.c
index d54b92f..d2d537c 100644
--- a/src/rbus/rbus_asyncsubscribe.c
+++ b/src/rbus/rbus_asyncsubscribe.c
@@ -37,8 +37,8 @@
   } \
 }
 #define VERIFY_NULL(T) if(NULL == T){ return; }
-#define LOCK() ERROR_CHECK(pthread_mutex_lock(&gRetrier->mutexQueue))
-#define UNLOCK() ERROR_CHECK(pthread_mutex_unlock(&gRetrier->mutexQueue))
+#define LOCK() ERROR_CHECK(pthread_mutex_lock(&gMutex))
+#define UNLOCK() ERROR_CHECK(pthread_mutex_unlock(&gMutex))
 
 
 /*defined in rbus.c*/
@@ -46,24 +46,30 @@ void _subscribe_async_callback_handler(rbusHandle_t handle, rbusEventSubscriptio
 int _event_callback_handler(char const* objectName, char const* eventName, rbusMessage message, void* userData);
 void rbusEventSubscription_free(void* p);
 
-typedef struct AsyncSubscribeRetrier_t
-{
-    rtList items;
-    pthread_cond_t condItemAdded;
-    pthread_mutex_t mutexQueue;
-    int isRunning;
-    pthread_t threadId;
-} AsyncSubscribeRetrier_t;
-
 typedef struct AsyncSubscription_t
 {
     rbusEventSubscription_t* subscription;
     rbusMessage payload;
-    int nextWaitTime;
+    bool cancelled;         /*removed while its request was on its way*/
+    uint32_t timeout;       /*miliseconds*/
+    uint32_t nextWaitTime;
     rtTime_t startTime;
     rtTime_t nextRetryTime;
 } AsyncSubscription_t;
 
+typedef struct AsyncSubscribeRetrier_t
+{
+    rtList items;
+    AsyncSubscription_t* sending;   /*the item whose request or callback is under way, which only the thread may free*/
+    rbusHandle_t sendingFor;
+    pthread_cond_t condItemAdded;
+    pthread_cond_t condSent;
+    int isRunning;
+    pthread_t threadId;
+} AsyncSubscribeRetrier_t;
+
+/*guards gRetrier and all that belongs to it*/
+static pthread_mutex_t gMutex = PTHREAD_MUTEX_INITIALIZER;
 static AsyncSubscribeRetrier_t* gRetrier = NULL;
 
 static void rbusAsyncSubscribeRetrier_FreeSubscription(void *pitem)
@@ -82,7 +88,7 @@ static int rbusAsyncSubscribeRetrier_CompareHandle(const void *pitem, const void
     AsyncSubscription_t* item = (AsyncSubscription_t*)pitem;
     if((!item)||(!phandle))
         return 1;
-    if(item->subscription->handle == phandle)
+    if(item->subscription && !item->cancelled && item->subscription->handle == phandle)
         return 0;
     else
         return 1;
@@ -95,7 +101,7 @@ static int rbusAsyncSubscribeRetrier_CompareSubscription(const void *pitem, cons
     if((!item)||(!sub))
         return 1;
 
-    if (item->subscription && (item->subscription->handle == sub->handle) &&
+    if (item->subscription && !item->cancelled && (item->subscription->handle == sub->handle) &&
         strcmp(item->subscription->eventName, sub->eventName) == 0 && 
         rbusFilter_Compare(item->subscription->filter, sub->filter) == 0)
         return 0;
@@ -103,7 +109,7 @@ static int rbusAsyncSubscribeRetrier_CompareSubscription(const void *pitem, cons
         return 1;
 }
 
-static int rbusAsyncSubscribeRetrier_DetermineNextSendTime(rtTime_t* nextSendTime)
+static int rbusAsyncSubscribeRetrier_DetermineNextSendTime(AsyncSubscribeRetrier_t* retrier, rtTime_t* nextSendTime)
 {
     rtTime_t now;
     rtListItem li;
@@ -115,7 +121,7 @@ static int rbusAsyncSubscribeRetrier_DetermineNextSendTime(rtTime_t* nextSendTim
 
     RBUSLOG_DEBUG("now=%s", rtTime_ToString(&now, tbuff));
 
-    rtList_GetFront(gRetrier->items, &li);
+    rtList_GetFront(retrier->items, &li);
 
     if(!li)
     {
@@ -155,7 +161,15 @@ static int rbusAsyncSubscribeRetrier_DetermineNextSendTime(rtTime_t* nextSendTim
     return 0;//meaning there's nothing past due currently
 }
 
-static void rbusAsyncSubscribeRetrier_SendSubscriptionRequests()
+static void rbusAsyncSubscribeRetrier_Sent(AsyncSubscribeRetrier_t* retrier)
+{
+    retrier->sending = NULL;
+    retrier->sendingFor = NULL;
+    ERROR_CHECK(pthread_cond_broadcast(&retrier->condSent));
+}
+
+/*called and returns with the mutex locked, which is unlocked while a request is sent or a callback is called*/
+static void rbusAsyncSubscribeRetrier_SendSubscriptionRequests(AsyncSubscribeRetrier_t* retrier)
 {
     rtListItem li;
     rtTime_t now;
@@ -164,9 +178,9 @@ static void rbusAsyncSubscribeRetrier_SendSubscriptionRequests()
 
     rtTime_Now(&now);
 
-    rtList_GetFront(gRetrier->items, &li);
+    rtList_GetFront(retrier->items, &li);
 
-    while(li)
+    while(li && retrier->isRunning)
     {
         AsyncSubscription_t* item = NULL;
 
@@ -183,15 +197,36 @@ static void rbusAsyncSubscribeRetrier_SendSubscriptionRequests()
 
             RBUSLOG_INFO("%s subscribing", item->subscription->eventName);
 
+            retrier->sending = item;
+            retrier->sendingFor = item->subscription->handle;
+            UNLOCK();
             coreerr = rbus_subscribeToEventTimeout(NULL, item->subscription->eventName,
                         _event_callback_handler, item->payload, item->subscription, &providerError, 0, false, &response, false);
+            LOCK();
 
             rtTime_Now(&now);
 
             elapsed = rtTime_Elapsed(&item->startTime, &now);
 
+            if(item->cancelled)
+            {
+                /*nobody wants it any more*/
+                if(response)
+                    rbusMessage_Release(response);
+                if(coreerr == RBUSCORE_SUCCESS)
+                {
+                    UNLOCK();
+                    rbus_unsubscribeFromEvent(NULL, item->subscription->eventName, item->payload, false);
+                    LOCK();
+                }
+                rtList_RemoveItem(retrier->items, li, rbusAsyncSubscribeRetrier_FreeSubscription);
+                rbusAsyncSubscribeRetrier_Sent(retrier);
+                rtList_GetFront(retrier->items, &li);
+                continue;
+            }
+
             if(coreerr == RBUSCORE_ERROR_ENTRY_NOT_FOUND &&  /*the only error that means provider not found yet*/
-             elapsed < rbusHandle_FetchSubscribeTimeout(item->subscription->handle))    /*if we haven't timeout out yet*/
+             elapsed < item->timeout)    /*if we haven't timeout out yet*/
             {
                 if(item->nextWaitTime == 0)
                     item->nextWaitTime = 1000; //miliseconds
@@ -203,7 +238,7 @@ static void rbusAsyncSubscribeRetrier_SendSubscriptionRequests()
                   item->nextWaitTime = RBUS_SUBSCRIBE_MAXWAIT;
 
                 //update nextRetryTime to nextWaitTime miliseconds from now, without exceeding subscribeTimeout
-                if(elapsed + item->nextWaitTime < rbusHandle_FetchSubscribeTimeout(item->subscription->handle))
+                if(elapsed + item->nextWaitTime < item->timeout)
                 {
                     rtTime_Later(&now, item->nextWaitTime, &item->nextRetryTime);
                 }
@@ -211,18 +246,20 @@ static void rbusAsyncSubscribeRetrier_SendSubscriptionRequests()
                 {
                     //its possible to have the odd situation, based on how subscribeTimeout/subscribeMaxWait are configured, 
                     //where this final retry happens very close to the previous retry (e.g. ... wait 60, sub, wait 60, sub, wait 1, sub)
-                    rtTime_Later(&item->startTime, rbusHandle_FetchSubscribeTimeout(item->subscription->handle), &item->nextRetryTime);
+                    rtTime_Later(&item->startTime, item->timeout, &item->nextRetryTime);
                 }
 
                 RBUSLOG_INFO("%s no provider. retry in %d ms with %d left",
                     item->subscription->eventName, 
                     rtTime_Elapsed(&now, &item->nextRetryTime), 
-                    rbusHandle_FetchSubscribeTimeout(item->subscription->handle)- elapsed );
+                    item->timeout - elapsed );
+
+                rbusAsyncSubscribeRetrier_Sent(retrier);
             }
             else
             {
                 rbusError_t responseErr;
-                rtListItem tmp;
+                rbusEventSubscription_t* subscription = item->subscription;
 
                 if(coreerr == RBUSCORE_SUCCESS)
                 {
@@ -256,15 +293,16 @@ static void rbusAsyncSubscribeRetrier_SendSubscriptionRequests()
                         rbusMessage_Release(response);
                 }
 
-                _subscribe_async_callback_handler(item->subscription->handle, item->subscription, responseErr, subscriptionId);
-                //store the next item, because we are removing this li item from list
-                LOCK();
+                //it is no longer ours, neither to be found nor to be freed
                 item->subscription = NULL;
-                rtListItem_GetNext(li, &tmp); 
-                rtList_RemoveItem(gRetrier->items, li, rbusAsyncSubscribeRetrier_FreeSubscription);
+                rtList_RemoveItem(retrier->items, li, rbusAsyncSubscribeRetrier_FreeSubscription);
                 UNLOCK();
-                li = tmp;
-                continue;//li is already the next item so avoid GetNext below
+                _subscribe_async_callback_handler(subscription->handle, subscription, responseErr, subscriptionId);
+                LOCK();
+                rbusAsyncSubscribeRetrier_Sent(retrier);
+                //the list may have changed in the meantime, items already sent are not due again
+                rtList_GetFront(retrier->items, &li);
+                continue;
             }
         }
         rtListItem_GetNext(li, &li);    
@@ -274,20 +312,18 @@ static void rbusAsyncSubscribeRetrier_SendSubscriptionRequests()
 
 static void* AsyncSubscribeRetrier_threadFunc(void* data)
 {
-    (void)data;
+    AsyncSubscribeRetrier_t* retrier = (AsyncSubscribeRetrier_t*)data;
     LOCK();
-    while(gRetrier->isRunning)
+    while(retrier->isRunning)
     {
         rtTime_t nextSendTime;
 
-        while(rbusAsyncSubscribeRetrier_DetermineNextSendTime(&nextSendTime))
+        while(retrier->isRunning && rbusAsyncSubscribeRetrier_DetermineNextSendTime(retrier, &nextSendTime))
         {
-            UNLOCK();
-            rbusAsyncSubscribeRetrier_SendSubscriptionRequests();
-            LOCK();
+            rbusAsyncSubscribeRetrier_SendSubscriptionRequests(retrier);
         }
 
-        if(gRetrier->isRunning)
+        if(retrier->isRunning)
         {
             char tbuff[200];
             rtTimespec_t ts;
@@ -295,8 +331,8 @@ static void* AsyncSubscribeRetrier_threadFunc(void* data)
 
             RBUSLOG_DEBUG("timedwait until %s", rtTime_ToString(&nextSendTime, tbuff));
  
-            err = pthread_cond_timedwait(&gRetrier->condItemAdded,
-                                         &gRetrier->mutexQueue,
+            err = pthread_cond_timedwait(&retrier->condItemAdded,
+                                         &gMutex,
                                          rtTime_ToTimespec(&nextSendTime, &ts));
             if(err != 0 && err != ETIMEDOUT)
             {
@@ -314,7 +350,6 @@ static void* AsyncSubscribeRetrier_threadFunc(void* data)
 
 static void rbusAsyncSubscribeRetrier_Create()
 {
-    pthread_mutexattr_t mattrib;
     pthread_condattr_t cattrib;
 
     RBUSLOG_DEBUG("%s enter", __FUNCTION__);
@@ -322,62 +357,51 @@ static void rbusAsyncSubscribeRetrier_Create()
     gRetrier = rt_malloc(sizeof(struct AsyncSubscribeRetrier_t));
 
     gRetrier->isRunning = true;
+    gRetrier->sending = NULL;
+    gRetrier->sendingFor = NULL;
     rtList_Create(&gRetrier->items);
 
-    ERROR_CHECK(pthread_mutexattr_init(&mattrib));
-    ERROR_CHECK(pthread_mutexattr_settype(&mattrib, PTHREAD_MUTEX_ERRORCHECK));
-    ERROR_CHECK(pthread_mutex_init(&gRetrier->mutexQueue, &mattrib));  
-    ERROR_CHECK(pthread_mutexattr_destroy(&mattrib));
-
     ERROR_CHECK(pthread_condattr_init(&cattrib));
     ERROR_CHECK(pthread_condattr_setclock(&cattrib, CLOCK_MONOTONIC));
     ERROR_CHECK(pthread_cond_init(&gRetrier->condItemAdded, &cattrib));
     ERROR_CHECK(pthread_condattr_destroy(&cattrib));
+    ERROR_CHECK(pthread_cond_init(&gRetrier->condSent, NULL));
 
-    ERROR_CHECK(pthread_create(&gRetrier->threadId, NULL, AsyncSubscribeRetrier_threadFunc, NULL));
+    ERROR_CHECK(pthread_create(&gRetrier->threadId, NULL, AsyncSubscribeRetrier_threadFunc, gRetrier));
 
     RBUSLOG_DEBUG("%s exit", __FUNCTION__);
 }
 
-static void rbusAsyncSubscribeRetrier_Destroy()
+static void rbusAsyncSubscribeRetrier_Destroy(AsyncSubscribeRetrier_t* retrier)
 {
     RBUSLOG_DEBUG("%s enter", __FUNCTION__);
 
-    LOCK();
-    gRetrier->isRunning = false;
-    UNLOCK();
-
     //wake up worker thread so it can exit and join
-    ERROR_CHECK(pthread_cond_signal(&gRetrier->condItemAdded));
-    ERROR_CHECK(pthread_join(gRetrier->threadId, NULL));
+    ERROR_CHECK(pthread_cond_signal(&retrier->condItemAdded));
+    ERROR_CHECK(pthread_join(retrier->threadId, NULL));
 
-    ERROR_CHECK(pthread_mutex_destroy(&gRetrier->mutexQueue));
-    ERROR_CHECK(pthread_cond_destroy(&gRetrier->condItemAdded));
-    rtList_Destroy(gRetrier->items, rbusAsyncSubscribeRetrier_FreeSubscription);
+    ERROR_CHECK(pthread_cond_destroy(&retrier->condSent));
+    ERROR_CHECK(pthread_cond_destroy(&retrier->condItemAdded));
+    rtList_Destroy(retrier->items, rbusAsyncSubscribeRetrier_FreeSubscription);
 
-    free(gRetrier);
-    gRetrier = NULL;
+    free(retrier);
 
     RBUSLOG_DEBUG("%s exit", __FUNCTION__);
 }
 
-void rbusAsyncSubscribe_AddSubscription(rbusEventSubscription_t* subscription, rbusMessage payload)
+void rbusAsyncSubscribe_AddSubscription(rbusEventSubscription_t* subscription, rbusMessage payload, uint32_t timeout)
 {
-    int rc;
     char tbuff[50];
     VERIFY_NULL(subscription);
 
-    if(!gRetrier)
-    {
-        rbusAsyncSubscribeRetrier_Create();
-    }
-
     AsyncSubscription_t* item = rt_malloc(sizeof(struct AsyncSubscription_t));
 
     rbusMessage_Retain(payload);
 
     item->subscription = subscription;
     item->payload = payload;
+    item->cancelled = false;
+    item->timeout = timeout;
     item->nextWaitTime = 0;
 
     rtTime_Now(&item->startTime);
@@ -386,25 +410,38 @@ void rbusAsyncSubscribe_AddSubscription(rbusEventSubscription_t* subscription, r
     RBUSLOG_INFO("%s %s", subscription->eventName, rtTime_ToString(&item->startTime, tbuff));
 
     LOCK();
+    if(!gRetrier)
+    {
+        rbusAsyncSubscribeRetrier_Create();
+    }
     rtList_PushBack(gRetrier->items, item, NULL);
-    UNLOCK();
 
     //wake up worker thread so it can process new item
-    rc = pthread_cond_signal(&gRetrier->condItemAdded);
-    (void)rc;
+    ERROR_CHECK(pthread_cond_signal(&gRetrier->condItemAdded));
+    UNLOCK();
+}
+
+/*removes the first item found, or has the thread do so when its request is under way. called with the mutex locked*/
+static bool rbusAsyncSubscribe_Remove(const void* what, rtList_Compare compare)
+{
+    AsyncSubscription_t* item = rtList_Find(gRetrier->items, what, compare);
+    if(!item)
+        return false;
+    if(item == gRetrier->sending)
+        item->cancelled = true;
+    else
+        rtList_RemoveItemWithData(gRetrier->items, item, rbusAsyncSubscribeRetrier_FreeSubscription);
+    return true;
 }
 
 bool rbusAsyncSubscribe_RemoveSubscription(rbusEventSubscription_t* subscription)
 {
-    rtError err = RT_OK;
     bool sub_removed = false;
-    if(!gRetrier || subscription == NULL)
+    if(subscription == NULL)
         return false;
     LOCK();
-    err = rtList_RemoveItemByCompare(gRetrier->items, subscription,
-        rbusAsyncSubscribeRetrier_CompareSubscription, rbusAsyncSubscribeRetrier_FreeSubscription);
-    if(err == RT_OK)
-        sub_removed = true;
+    if(gRetrier)
+        sub_removed = rbusAsyncSubscribe_Remove(subscription, rbusAsyncSubscribeRetrier_CompareSubscription);
     UNLOCK();
     return sub_removed;
 }
@@ -414,13 +451,11 @@ bool rbusAsyncSubscribe_GetSubscription(rbusHandle_t handle, char const* eventNa
     rbusEventSubscription_t sub = {0};
     bool sub_exist = false;
 
-    if(!gRetrier)
-        return sub_exist;
     sub.handle = handle;
     sub.eventName = eventName;
     sub.filter = filter;
     LOCK();
-    if(rtList_Find(gRetrier->items, &sub, rbusAsyncSubscribeRetrier_CompareSubscription) != NULL)
+    if(gRetrier && rtList_Find(gRetrier->items, &sub, rbusAsyncSubscribeRetrier_CompareSubscription) != NULL)
     {
         sub_exist = true;
     }
@@ -434,31 +469,53 @@ bool rbusAsyncSubscribe_GetSubscription(rbusHandle_t handle, char const* eventNa
 
 void rbusAsyncSubscribe_CloseHandle(rbusHandle_t handle)
 {
-    size_t size1, size;
-
-    if(!gRetrier)
-        return;
+    AsyncSubscribeRetrier_t* retrier;
+    size_t size = 0;
+    int removed = 0;
 
     RBUSLOG_DEBUG("%s", __FUNCTION__);
 
     LOCK();
 
-    rtList_GetSize(gRetrier->items, &size1);
+    if(!gRetrier)
+    {
+        UNLOCK();
+        return;
+    }
 
     //remove all items with this handle
-    rtList_RemoveItemByCompare(gRetrier->items, handle, 
-                             rbusAsyncSubscribeRetrier_CompareHandle, rbusAsyncSubscribeRetrier_FreeSubscription);
+    while(rbusAsyncSubscribe_Remove(handle, rbusAsyncSubscribeRetrier_CompareHandle))
+        removed++;
 
-    //if list is empty, we can destruct
-    rtList_GetSize(gRetrier->items, &size);
+    //the thread must be done with the handle, unless it is the thread's callback that closes it
+    retrier = gRetrier;
+    if(!pthread_equal(pthread_self(), retrier->threadId))
+    {
+        while(gRetrier && gRetrier->sendingFor == handle)
+            ERROR_CHECK(pthread_cond_wait(&gRetrier->condSent, &gMutex));
+
+        //if list is empty, we can destruct
+        retrier = gRetrier;
+        if(retrier)
+            rtList_GetSize(retrier->items, &size);
+        if(size == 0 && retrier && !retrier->sending)
+        {
+            retrier->isRunning = false;
+            gRetrier = NULL;
+        }
+        else
+            retrier = NULL;
+    }
+    else
+        retrier = NULL;
 
     UNLOCK();
 
-    RBUSLOG_INFO("removed %d pending async subscriptions.  %d subs left in list.", (int)(size1-size), (int)size);
+    RBUSLOG_INFO("removed %d pending async subscriptions.  %d subs left in list.", removed, (int)size);
 
-    if(size == 0)
+    if(retrier)
     {
         RBUSLOG_INFO("all handles removed");
-        rbusAsyncSubscribeRetrier_Destroy();
+        rbusAsyncSubscribeRetrier_Destroy(retrier);
     }
 }
diff --git a/src/rbus/rbus_asyncsubscribe.h b/src/rbus/rbus_asyncsubscribe.h
index 4df56a2..a460557 100644
--- a/src/rbus/rbus_asyncsubscribe.h
+++ b/src/rbus/rbus_asyncsubscribe.h
@@ -25,7 +25,7 @@
 #ifdef __cplusplus
 extern "C" {
 #endif
-void rbusAsyncSubscribe_AddSubscription(rbusEventSubscription_t* subscription, rbusMessage payload);
+void rbusAsyncSubscribe_AddSubscription(rbusEventSubscription_t* subscription, rbusMessage payload, uint32_t timeout);
 bool rbusAsyncSubscribe_RemoveSubscription(rbusEventSubscription_t* subscription);
 bool rbusAsyncSubscribe_GetSubscription(rbusHandle_t handle, char const* eventName, rbusFilter_t filter);
 void rbusAsyncSubscribe_CloseHandle(rbusHandle_t handle);
-- 
2.43.0

