From b0a0c050f300c263e747e6cc3d3b8ca2c4fc90ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:44 +0000
Subject: [PATCH 01/90] fix: keep the fraction when dividing or multiplying a
 TimeSpan

Seconds and nanoseconds were truncated independently, so e.g. 1s / 2 was 0.
---
 src/icl_core/src/icl_core/TimeSpan.h | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/icl_core/src/icl_core/TimeSpan.h b/src/icl_core/src/icl_core/TimeSpan.h
index f67f2e0..d452938 100644
--- a/src/icl_core/src/icl_core/TimeSpan.h
+++ b/src/icl_core/src/icl_core/TimeSpan.h
@@ -207,16 +207,28 @@ inline TimeSpan operator - (const TimeSpan& left, const TimeSpan& right)
   return a;
 }
 
-inline TimeSpan operator / (const TimeSpan& span, double divisor)
+/*! Creates a time span from fractional second and nanosecond values.
+ *  The fraction of the seconds and nanosecond values beyond one second
+ *  are carried over.
+ */
+inline TimeSpan createFromFractions(double sec, double nsec)
 {
-  TimeSpan a(int64_t(span.tsSec() / divisor), int32_t(span.tsNSec() / divisor));
+  int64_t whole_sec = int64_t(sec);
+  nsec += (sec - double(whole_sec)) * 1e9;
+  nsec += (nsec < 0) ? -0.5 : 0.5;
+  int64_t carry_sec = int64_t(nsec / 1e9);
+  TimeSpan a(whole_sec + carry_sec, int32_t(nsec - double(carry_sec) * 1e9));
   return a;
 }
 
+inline TimeSpan operator / (const TimeSpan& span, double divisor)
+{
+  return createFromFractions(double(span.tsSec()) / divisor, span.tsNSec() / divisor);
+}
+
 inline TimeSpan operator * (const TimeSpan& span, double divisor)
 {
-  TimeSpan a(int64_t(span.tsSec() * divisor), int32_t(span.tsNSec() * divisor));
-  return a;
+  return createFromFractions(double(span.tsSec()) * divisor, span.tsNSec() * divisor);
 }
 
 inline TimeSpan abs(const TimeSpan& span)
-- 
2.43.0


From dfa8d1f51fcfaad632382d05056f6dcfce747d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:44 +0000
Subject: [PATCH 02/90] fix: print the microseconds of a TimeSpan, not its
 nanoseconds, with unit us

---
 src/icl_core/src/icl_core/TimeSpan.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/icl_core/src/icl_core/TimeSpan.cpp b/src/icl_core/src/icl_core/TimeSpan.cpp
index 9f7077c..28f8305 100644
--- a/src/icl_core/src/icl_core/TimeSpan.cpp
+++ b/src/icl_core/src/icl_core/TimeSpan.cpp
@@ -256,7 +256,7 @@ std::ostream& operator << (std::ostream& stream, const TimeSpan& time_span)
   }
   else if (calc_nsec / 1000 * 1000 == calc_nsec)
   {
-    stream << calc_nsec << "us";
+    stream << calc_nsec / 1000 << "us";
   }
   else
   {
-- 
2.43.0


From 482456220e486e6b1a76e2b7f1a08ac9b65dc78c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:06 +0000
Subject: [PATCH 03/90] fix: order sequence numbers half a range apart, and
 ranges with a minimum

Numbers exactly half the range apart were both unordered, and the half was
taken from max_value although the range starts at min_value.
---
 src/icl_core/src/icl_core/SequenceNumber.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/icl_core/src/icl_core/SequenceNumber.h b/src/icl_core/src/icl_core/SequenceNumber.h
index 147c353..c78d48e 100644
--- a/src/icl_core/src/icl_core/SequenceNumber.h
+++ b/src/icl_core/src/icl_core/SequenceNumber.h
@@ -87,11 +87,11 @@ public:
   {
     if (m_value < other.m_value)
     {
-      return (other.m_value - m_value) < max_value / 2;
+      return (other.m_value - m_value) <= (max_value - min_value) / 2;
     }
     else
     {
-      return (m_value - other.m_value) > max_value / 2;
+      return (m_value - other.m_value) > (max_value - min_value) / 2;
     }
   }
 
-- 
2.43.0


From c21216efecdf813b25332169eb0d21eb41512ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:06 +0000
Subject: [PATCH 04/90] fix: take only the sub-second part of a ptime as
 nanoseconds

The total nanosecond count was truncated to 32 bits and added to the seconds.
---
 src/icl_core/src/icl_core/TimeStamp.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/icl_core/src/icl_core/TimeStamp.cpp b/src/icl_core/src/icl_core/TimeStamp.cpp
index b321c8a..07cb1fd 100644
--- a/src/icl_core/src/icl_core/TimeStamp.cpp
+++ b/src/icl_core/src/icl_core/TimeStamp.cpp
@@ -92,7 +92,7 @@ TimeStamp::TimeStamp(const boost::posix_time::ptime& ptime_stamp)
 
   secs = boost::posix_time::time_period(unix_time_base, ptime_stamp).length().total_seconds();
   nsecs = int32_t(boost::posix_time::time_period(unix_time_base, ptime_stamp).
-  length().total_nanoseconds());
+  length().total_nanoseconds() % 1000000000);
   normalizeTime();
 }
 
@@ -102,7 +102,7 @@ TimeStamp& TimeStamp::operator = (const boost::posix_time::ptime& ptime_stamp)
 
   secs = boost::posix_time::time_period(unix_time_base, ptime_stamp).length().total_seconds();
   nsecs = int32_t(boost::posix_time::time_period(unix_time_base, ptime_stamp).
-  length().total_nanoseconds());
+  length().total_nanoseconds() % 1000000000);
   normalizeTime();
   return *this;
 }
-- 
2.43.0


From 9e4e7b68f0163a1c3f00703d882441c7e9316da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:06 +0000
Subject: [PATCH 05/90] fix: split keeps a trailing empty part and accepts an
 empty delimiter

join() is documented as the reverse of split(), which dropped an empty last
part; an empty delimiter made split() loop forever.
---
 src/icl_core/src/icl_core/StringHelper.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/icl_core/src/icl_core/StringHelper.cpp b/src/icl_core/src/icl_core/StringHelper.cpp
index 71107e2..cb01ec8 100644
--- a/src/icl_core/src/icl_core/StringHelper.cpp
+++ b/src/icl_core/src/icl_core/StringHelper.cpp
@@ -29,9 +29,9 @@ std::vector<String> split(const String& str, const String& delimiter)
   String s = str;
   String::size_type pos = 0;
   std::vector<String> substrings;
-  if (s.empty())
+  if (s.empty() || delimiter.empty())
   {
-    substrings.push_back("");
+    substrings.push_back(s);
     return substrings;
   }
   while ((pos = s.find(delimiter)) != String::npos)
@@ -39,10 +39,7 @@ std::vector<String> split(const String& str, const String& delimiter)
     substrings.push_back(s.substr(0, pos));
     s.erase(0, pos+delimiter.size());
   }
-  if (!s.empty())
-  {
-    substrings.push_back(s);
-  }
+  substrings.push_back(s);
   return substrings;
 }
 
-- 
2.43.0


From ac044769ad93c22492633e98adc7b7a20baa7c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:35 +0000
Subject: [PATCH 06/90] fix: trim of an empty text does not read in front of it

---
 src/icl_core/src/icl_core/StringHelper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/icl_core/src/icl_core/StringHelper.cpp b/src/icl_core/src/icl_core/StringHelper.cpp
index cb01ec8..3bbd7ac 100644
--- a/src/icl_core/src/icl_core/StringHelper.cpp
+++ b/src/icl_core/src/icl_core/StringHelper.cpp
@@ -69,7 +69,7 @@ String trim(String const & str)
     ++trim_front;
   }
 
-  std::string::size_type trim_end = length - 1;
+  std::string::size_type trim_end = (length > 0) ? length - 1 : 0;
   while ((trim_end > trim_front) && isspace(static_cast<unsigned char>(str[trim_end])))
   {
     --trim_end;
-- 
2.43.0


From 9718ca4397b646484f6db6e6cfda36d10c54c875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:33 +0000
Subject: [PATCH 07/90] fix: print the anchor of a scheme where the parser
 expects it

The parser accepts scheme://specifier#anchor?query, but the anchor was printed
behind the query, where it parses as part of the last query value.
---
 src/icl_core/src/icl_core/SchemeParser.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/icl_core/src/icl_core/SchemeParser.cpp b/src/icl_core/src/icl_core/SchemeParser.cpp
index a30c605..ead1f62 100644
--- a/src/icl_core/src/icl_core/SchemeParser.cpp
+++ b/src/icl_core/src/icl_core/SchemeParser.cpp
@@ -30,6 +30,11 @@ std::ostream &operator<<(std::ostream &stream, const Scheme &scheme)
 {
   stream << scheme.scheme_name << scheme.specifier;
 
+  if (scheme.anchor.size() > 0)
+  {
+    stream << "#" << scheme.anchor;
+  }
+
   bool first = true;
   BOOST_FOREACH(Query query, scheme.queries)
   {
@@ -45,11 +50,6 @@ std::ostream &operator<<(std::ostream &stream, const Scheme &scheme)
     stream << query.name << "=" << query.value;
   }
 
-  if (scheme.anchor.size() > 0)
-  {
-    stream << "#" << scheme.anchor;
-  }
-
   return stream;
 }
 
-- 
2.43.0


From 6fd8f12d80327d69c9d327396256b13b021f1b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:33 +0000
Subject: [PATCH 08/90] fix: do not carry the scheme and anchor of one parse
 over into the next

---
 src/icl_core/src/icl_core/SchemeParser.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/icl_core/src/icl_core/SchemeParser.cpp b/src/icl_core/src/icl_core/SchemeParser.cpp
index ead1f62..95b9cf0 100644
--- a/src/icl_core/src/icl_core/SchemeParser.cpp
+++ b/src/icl_core/src/icl_core/SchemeParser.cpp
@@ -193,6 +193,10 @@ bool SchemeParser::parseScheme(const String &str, Scheme &scheme_handler,
   // scheme rule
   rule<> scheme_rule = !scheme_p[addScheme] >> specifier_p[addSpecifier] >> !anchor_p >> !query_p;
 
+  scheme_handler.scheme_type = OtherScheme;
+  scheme_handler.scheme_name.clear();
+  scheme_handler.specifier.clear();
+  scheme_handler.anchor.clear();
   scheme_handler.queries.clear();
   info = parse(str.c_str(), scheme_rule);
 
-- 
2.43.0


From b3b081bd52ac3267e9e85f424cfea472132cede8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:39 +0000
Subject: [PATCH 09/90] fix: parse the whole scheme text, not only up to an
 embedded null character

---
 src/icl_core/src/icl_core/SchemeParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/icl_core/src/icl_core/SchemeParser.cpp b/src/icl_core/src/icl_core/SchemeParser.cpp
index 95b9cf0..4ab6573 100644
--- a/src/icl_core/src/icl_core/SchemeParser.cpp
+++ b/src/icl_core/src/icl_core/SchemeParser.cpp
@@ -198,7 +198,7 @@ bool SchemeParser::parseScheme(const String &str, Scheme &scheme_handler,
   scheme_handler.specifier.clear();
   scheme_handler.anchor.clear();
   scheme_handler.queries.clear();
-  info = parse(str.c_str(), scheme_rule);
+  info = parse(str.c_str(), str.c_str() + str.size(), scheme_rule);
 
   return info.full;
 }
-- 
2.43.0


From 96bdeff52f4c22bef20be1e76d12d25bf02eb0b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:03 +0000
Subject: [PATCH 10/90] fix: ZBuffer::reset could not be compiled

---
 src/icl_core/src/icl_core/ZBuffer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/icl_core/src/icl_core/ZBuffer.h b/src/icl_core/src/icl_core/ZBuffer.h
index 19cb5d0..d6fb1a0 100644
--- a/src/icl_core/src/icl_core/ZBuffer.h
+++ b/src/icl_core/src/icl_core/ZBuffer.h
@@ -77,7 +77,7 @@ public:
   }
 
   //! Empties the Z buffer.
-  void reset() { m_buffer.assign(size); }
+  void reset() { m_buffer.assign(m_buffer.size(), boost::optional<T>()); }
   //! Returns the buffer size.
   const size_type size() const { return m_buffer.size(); }
   //! Read-only access to the buffer.
-- 
2.43.0


From b3738b06cfbca7cc7beb79e1716af10e7a91f4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:46 +0000
Subject: [PATCH 11/90] fix: string2Enum does not match a text up to its
 embedded null character only

---
 src/icl_core/src/icl_core/EnumHelper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/icl_core/src/icl_core/EnumHelper.cpp b/src/icl_core/src/icl_core/EnumHelper.cpp
index 7ba1772..f577a7a 100644
--- a/src/icl_core/src/icl_core/EnumHelper.cpp
+++ b/src/icl_core/src/icl_core/EnumHelper.cpp
@@ -36,7 +36,7 @@ bool string2Enum(const String& str, int32_t& value,
        ++index)
   {
     // Return success if a matching description has been found.
-    if (::strcmp(str.c_str(), descriptions[index]) == 0)
+    if (str == descriptions[index])
     {
       value = index;
       result = true;
-- 
2.43.0


From efee352aef74a6d79e2ff27d036800ab23e3cd9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:56 +0000
Subject: [PATCH 12/90] fix: zipFile reports failure and copies files that look
 compressed

Success was reported if a file could not be opened or read, or if the last
part could not be written; and an original which is a gzip file itself (or
begins like one) was decompressed (or cut off) instead of copied.
---
 src/icl_core/src/icl_core/os_fs.cpp | 38 +++++++++++++++++++++++------
 1 file changed, 30 insertions(+), 8 deletions(-)

diff --git a/src/icl_core/src/icl_core/os_fs.cpp b/src/icl_core/src/icl_core/os_fs.cpp
index 60d0ebf..3157010 100644
--- a/src/icl_core/src/icl_core/os_fs.cpp
+++ b/src/icl_core/src/icl_core/os_fs.cpp
@@ -25,6 +25,7 @@
 #include "icl_core/os_fs.h"
 
 #include <iostream>
+#include <stdio.h>
 
 #include "icl_core/BaseTypes.h"
 
@@ -41,13 +42,28 @@ bool zipFile(const char *filename, const char *additional_extension)
   bool ret = true;
   icl_core::String gzip_file_name = icl_core::String(filename) + additional_extension + ".gz";
   char big_buffer[0x1000];
-  int bytes_read = 0;
-  gzFile unzipped_file = gzopen(filename, "rb");
-  gzFile zipped_file = gzopen(gzip_file_name.c_str(), "wb");
+  // The original is read as it is, even if it is a gzip file itself.
+  FILE *unzipped_file = ::fopen(filename, "rb");
+  gzFile zipped_file = NULL;
+
+  if (unzipped_file == NULL)
+  {
+    std::cerr << "ZipFile(" << filename << "->" << gzip_file_name << ") Error on opening the original." << std::endl;
+    ret = false;
+  }
+  else
+  {
+    zipped_file = gzopen(gzip_file_name.c_str(), "wb");
+    if (zipped_file == NULL)
+    {
+      std::cerr << "ZipFile(" << filename << "->" << gzip_file_name << ") Error on creating." << std::endl;
+      ret = false;
+    }
+  }
 
   if (unzipped_file != NULL && zipped_file != NULL)
   {
-    bytes_read = gzread(unzipped_file, big_buffer, 0x1000);
+    int bytes_read = int(::fread(big_buffer, 1, 0x1000, unzipped_file));
     while (bytes_read > 0)
     {
       if (gzwrite(zipped_file, big_buffer, bytes_read) != bytes_read)
@@ -57,17 +73,23 @@ bool zipFile(const char *filename, const char *additional_extension)
         break;
       }
 
-      bytes_read = gzread(unzipped_file, big_buffer, 0x1000);
+      bytes_read = int(::fread(big_buffer, 1, 0x1000, unzipped_file));
+    }
+    if (::ferror(unzipped_file))
+    {
+      std::cerr << "ZipFile(" << filename << "->" << gzip_file_name << ") Error on reading." << std::endl;
+      ret = false;
     }
   }
 
   if (unzipped_file != NULL)
   {
-    gzclose(unzipped_file);
+    ::fclose(unzipped_file);
   }
-  if (zipped_file != NULL)
+  // Closing writes the last part of the compressed data.
+  if (zipped_file != NULL && gzclose(zipped_file) != Z_OK)
   {
-    gzclose(zipped_file);
+    ret = false;
   }
 
   return ret;
-- 
2.43.0


From 2f5df1808f9d58d164c6d35cfc251ba08a784a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:05 +0000
Subject: [PATCH 13/90] fix: setting and clearing bits keeps the upper half of
 64 bit fields

---
 src/icl_core/src/icl_core/BitfieldHelper.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/icl_core/src/icl_core/BitfieldHelper.h b/src/icl_core/src/icl_core/BitfieldHelper.h
index c93539b..2e0f98d 100644
--- a/src/icl_core/src/icl_core/BitfieldHelper.h
+++ b/src/icl_core/src/icl_core/BitfieldHelper.h
@@ -25,6 +25,7 @@
 #ifndef ICL_CORE_BITFIELD_HELPER_H_INCLUDED
 #define ICL_CORE_BITFIELD_HELPER_H_INCLUDED
 
+#include "icl_core/BaseTypes.h"
 #include "icl_core/TemplateHelper.h"
 
 #ifdef _IC_BUILDER_DEPRECATED_STYLE_
@@ -39,7 +40,7 @@ namespace icl_core {
 template <typename T>
 void setBits(int bits, typename ConvertToRef<T>::ToRef bitfield)
 {
-  bitfield = T(int(bitfield) | bits);
+  bitfield = T(int64_t(bitfield) | bits);
 }
 
 /*!
@@ -48,7 +49,7 @@ void setBits(int bits, typename ConvertToRef<T>::ToRef bitfield)
 template <typename T>
 void clearBits(int bits, typename ConvertToRef<T>::ToRef bitfield)
 {
-  bitfield = T(int(bitfield) & ~bits);
+  bitfield = T(int64_t(bitfield) & ~int64_t(bits));
 }
 
 /*!
@@ -72,7 +73,7 @@ void SetBits(int bits, typename ConvertToRef<T>::ToRef bitfield) ICL_CORE_GCC_DE
 template <typename T>
 ICL_CORE_VC_DEPRECATE_STYLE void SetBits(int bits, typename ConvertToRef<T>::ToRef bitfield)
 {
-  setBits(bits, bitfield);bitfield = T(int(bitfield) | bits);
+  setBits<T>(bits, bitfield);
 }
 
 /*!
@@ -84,7 +85,7 @@ void ClearBits(int bits, typename ConvertToRef<T>::ToRef bitfield) ICL_CORE_GCC_
 template <typename T>
 ICL_CORE_VC_DEPRECATE_STYLE void ClearBits(int bits, typename ConvertToRef<T>::ToRef bitfield)
 {
-  clearBits(bits, bitfield);
+  clearBits<T>(bits, bitfield);
 }
 
 /*!
@@ -96,7 +97,7 @@ bool IsBitSet(int bit, typename ConvertToRef<T>::ToConstRef bitfield) ICL_CORE_G
 template <typename T>
 ICL_CORE_VC_DEPRECATE_STYLE bool IsBitSet(int bit, typename ConvertToRef<T>::ToConstRef bitfield)
 {
-  return isBitSet(bit, bitfield);
+  return isBitSet<T>(bit, bitfield);
 }
 
 #endif
-- 
2.43.0


From ca7bb55259eb553b7bedcb8f755cb6b88d1ff372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:05 +0000
Subject: [PATCH 14/90] fix: initialise the device-specific item number of a
 data header

---
 src/icl_core/src/icl_core/DataHeader.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/icl_core/src/icl_core/DataHeader.h b/src/icl_core/src/icl_core/DataHeader.h
index 9d71082..735009d 100644
--- a/src/icl_core/src/icl_core/DataHeader.h
+++ b/src/icl_core/src/icl_core/DataHeader.h
@@ -66,7 +66,8 @@ struct DataHeader
   DataHeader()
     : coordinate_system(),
       timestamp(),
-      sequence_number(0)
+      sequence_number(0),
+      dsin(0)
   { }
 
   //! Constructor.
@@ -75,7 +76,8 @@ struct DataHeader
              uint32_t sequence_number = 0)
     : coordinate_system(coordinate_system),
       timestamp(timestamp),
-      sequence_number(sequence_number)
+      sequence_number(sequence_number),
+      dsin(0)
   { }
 
   //! Destructor.
-- 
2.43.0


From b89221509be3536985e1a70eeb0ce886b8fdf53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:59 +0000
Subject: [PATCH 15/90] fix: look up paths below attribute tree nodes without
 subtrees

---
 src/icl_core/src/icl_core_config/AttributeTree.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/icl_core/src/icl_core_config/AttributeTree.cpp b/src/icl_core/src/icl_core_config/AttributeTree.cpp
index 0afbbe5..371afab 100644
--- a/src/icl_core/src/icl_core_config/AttributeTree.cpp
+++ b/src/icl_core/src/icl_core_config/AttributeTree.cpp
@@ -960,10 +960,10 @@ char *AttributeTree::getSpecialAttribute(const char *description, AttributeTree
 {
   // search recursive to the root for that attribute
   AttributeTree *at_path_parent = this;
-  AttributeTree *at_path = at_path_parent->m_subtree_list->subTree(description);
+  AttributeTree *at_path = at_path_parent->getSubTree(description);
   while (at_path_parent && at_path == NULL)
   {
-    at_path = at_path_parent->m_subtree_list->subTree(description);
+    at_path = at_path_parent->getSubTree(description);
     at_path_parent = at_path_parent->parentTree();
   }
 
@@ -1020,7 +1020,7 @@ char *AttributeTree::getAttribute(const char *param_description, const char *def
             *description_part = 0;
             description_part++;
           }
-          at = at->m_subtree_list->subTree(next_description);
+          at = at->getSubTree(next_description);
         }
         // now we are at the inner attribute tree
         // is there an attribute
@@ -1088,7 +1088,7 @@ char *AttributeTree::newSubNodeDescription(const char *base_description)
 
   sprintf(description + base_len - j, "%i", i);
 
-  while (m_subtree_list->subTree(description) && i < 100000)
+  while (getSubTree(description) && i < 100000)
   {
     i++;
     sprintf(description + base_len - j, "%i", i);
@@ -1110,14 +1110,14 @@ AttributeTree *AttributeTree::addSubTree(AttributeTree *tree, AttributeTree *aft
 {
   if (tree)
   {
-    if (m_subtree_list->subTree(tree->m_this_description))
+    if (tree->m_this_description && getSubTree(tree->m_this_description))
     {
       char *new_description = newSubNodeDescription(tree->m_this_description);
       free(tree->m_this_description);
       tree->m_this_description = new_description;
     }
 
-    if (after == NULL)
+    if (after == NULL || m_subtree_list == NULL)
     {
       m_subtree_list = new SubTreeList(tree, m_subtree_list);
     }
-- 
2.43.0


From 4bf9ccd92753b03aa49ada13f8f1febecbdeb8a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:59 +0000
Subject: [PATCH 16/90] fix: do not read in front of a purely numeric attribute
 tree description

---
 src/icl_core/src/icl_core_config/AttributeTree.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/icl_core/src/icl_core_config/AttributeTree.cpp b/src/icl_core/src/icl_core_config/AttributeTree.cpp
index 371afab..2f81928 100644
--- a/src/icl_core/src/icl_core_config/AttributeTree.cpp
+++ b/src/icl_core/src/icl_core_config/AttributeTree.cpp
@@ -1075,14 +1075,13 @@ char *AttributeTree::newSubNodeDescription(const char *base_description)
   // find the maxima length of number in base_description
   if (base_len>0)
   {
-    while (base_len>=j-1 &&
-           sscanf(description+base_len-j-1, "%i", &i)==1)
+    while (j < base_len && isdigit((unsigned char)description[base_len-j-1]))
     {
       j++;
     }
     if (j!=0)
     {
-      i++;
+      i = atoi(description + base_len - j) + 1;
     }
   }
 
-- 
2.43.0


From a8786966fae0ade48e792b0db7d35e5ab7be2dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:59 +0000
Subject: [PATCH 17/90] fix: print an attribute tree with an empty comment node

---
 src/icl_core/src/icl_core_config/AttributeTree.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/icl_core/src/icl_core_config/AttributeTree.cpp b/src/icl_core/src/icl_core_config/AttributeTree.cpp
index 2f81928..da89673 100644
--- a/src/icl_core/src/icl_core_config/AttributeTree.cpp
+++ b/src/icl_core/src/icl_core_config/AttributeTree.cpp
@@ -1564,7 +1564,7 @@ bool AttributeTree::isComment()
 
 bool AttributeTree::isMultilineComment()
 {
-  return isComment() && (strchr(attribute(), '\n') != NULL);
+  return isComment() && attribute() && (strchr(attribute(), '\n') != NULL);
 }
 
 const char* AttributeTree::comment()
-- 
2.43.0


From bcaf25c3d66db241408fa086b0a1d14e705a2d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:59 +0000
Subject: [PATCH 18/90] fix: write attribute trees so that they can be read
 back

---
 .../src/icl_core_config/AttributeTree.cpp     | 24 ++++++++++---------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/icl_core/src/icl_core_config/AttributeTree.cpp b/src/icl_core/src/icl_core_config/AttributeTree.cpp
index da89673..611886e 100644
--- a/src/icl_core/src/icl_core_config/AttributeTree.cpp
+++ b/src/icl_core/src/icl_core_config/AttributeTree.cpp
@@ -1161,35 +1161,37 @@ void AttributeTree::printSubTree(ostream& out, int change_style_depth, const cha
     return;
   }
 
+  // The upper description consists of the indentation and the
+  // descriptions of those upper nodes which are not in a block.
+  size_t tud_len = strlen(the_upper_description);
+  size_t tab_len = strspn(the_upper_description, " ");
   int contents = contains();
   if (contents >= change_style_depth || hasMultilineComment())
   {
-    out << the_upper_description << t_description << '{' << endl;
-    if (m_this_attribute && strcmp(m_this_attribute, ""))
+    string tab(the_upper_description, tab_len);
+    out << the_upper_description << (tab_len < tud_len ? "." : "") << t_description << '{' << endl;
+    if (m_this_attribute)
     {
-      out << the_upper_description << ':' << m_this_attribute << endl;
+      out << tab << ':' << m_this_attribute << endl;
     }
 
     if (m_subtree_list)
     {
-      char *tab = (char*)malloc(strlen(the_upper_description) + 2);
-      assert(tab != NULL); // Just abort if we are out of memory.
-      strcat(strcpy(tab, the_upper_description), " ");
-      m_subtree_list->printSubTree(out, change_style_depth, tab);
-      free(tab);
+      tab += ' ';
+      m_subtree_list->printSubTree(out, change_style_depth, &tab[0]);
+      tab.erase(tab_len);
     }
 
-    out << the_upper_description << '}' << t_description << endl;
+    out << tab << '}' << t_description << endl;
   }
   else
   {
-    size_t tud_len = strlen(the_upper_description);
     size_t len = strlen(t_description) + tud_len + 1;
     char *description = static_cast<char*>(malloc(len + 1));
     assert(description != NULL); // Just abort if we are out of memory.
     memset(description, 0, len + 1);
 
-    if ((tud_len > 0) && (the_upper_description[tud_len-1] == ' '))
+    if (tab_len == tud_len)
     {
       strcat(strcpy(description, the_upper_description), t_description);
     }
-- 
2.43.0


From 06513781058e8cab9484f254938f0125113dfc62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:59 +0000
Subject: [PATCH 19/90] fix: read overlong, unterminated and unfinished lines
 of attribute tree files

---
 .../src/icl_core_config/AttributeTree.cpp     | 51 +++++++++----------
 1 file changed, 24 insertions(+), 27 deletions(-)

diff --git a/src/icl_core/src/icl_core_config/AttributeTree.cpp b/src/icl_core/src/icl_core_config/AttributeTree.cpp
index 611886e..3cb2286 100644
--- a/src/icl_core/src/icl_core_config/AttributeTree.cpp
+++ b/src/icl_core/src/icl_core_config/AttributeTree.cpp
@@ -58,17 +58,20 @@ int file_path_str_len = 0;
 int file_name_str_len = 0;
 const int INCLUDE_OFFSET = 10;
 
-static char buffer[2000];
-
-void readNextLineInBuffer(istream &in)
+//! Reads the next line, however long it is. Returns \c false if there is none.
+static bool readNextLine(istream &in, string &buffer)
 {
-  in.getline(buffer, 1998);
+  if (!std::getline(in, buffer))
+  {
+    buffer.clear();
+    return false;
+  }
   // Window/Unix
-  int line_length=strlen(buffer);
-  if (line_length > 0 && buffer[line_length-1]=='\r')
+  if (!buffer.empty() && buffer[buffer.length()-1]=='\r')
   {
-    buffer[line_length-1]=0;
+    buffer.erase(buffer.length()-1);
   }
+  return true;
 }
 
 // ===============================================================
@@ -1289,20 +1292,16 @@ int AttributeTree::load(const char *filename, bool unmark_changes, bool process_
 int AttributeTree::get(istream &in, bool process_include, bool load_comments,
                        const class FilePath *file_path)
 {
-  // save stack memory on reccursive calls!
-  // without static in the insmod call for the RTL-module we crash !
-  buffer[1999] = 0;
+  string buffer;
   char *attribute, *line;
   AttributeTree *at = this;
   int lineno = 1;
 
-  readNextLineInBuffer(in);
-
-  do
+  while (readNextLine(in, buffer))
   {
     //LOCAL_PRINTF("get next line %i\n",lineno);
     lineno++;
-    line = buffer;
+    line = &buffer[0];
     while (isspace(*line))
     {
       line++;
@@ -1370,20 +1369,20 @@ int AttributeTree::get(istream &in, bool process_include, bool load_comments,
             do
             {
               lineno++;
-              readNextLineInBuffer(in);
-              line = buffer;
-              char *line_end = buffer + strlen(buffer);
-              line_end--;
-              while (isspace(*line))
+              // a comment without end extends to the end of the text
+              comment_end = !readNextLine(in, buffer);
+              line = &buffer[0];
+              char *line_end = line + strlen(line);
+              while (line_end > line && isspace(*(line_end - 1)))
               {
-                line++;
+                line_end--;
               }
-              while (line_end >= buffer && isspace(*line_end))
+              *line_end = 0;
+              while (isspace(*line))
               {
-                line_end--;
+                line++;
               }
-              *(line_end + 1) = 0;
-              comment_end = (strstr(line, comment_end_str) != NULL);
+              comment_end = comment_end || (strstr(line, comment_end_str) != NULL);
 
               if (load_comments && !comment_end)
               {
@@ -1419,7 +1418,7 @@ int AttributeTree::get(istream &in, bool process_include, bool load_comments,
           }
           else
           {
-            if (!in.eof() && line[0])
+            if (line[0])
             {
               //LOCAL_PRINTF("AttributeTree::get >> found '%s' and could not interpret\n", line);
               return lineno;
@@ -1428,9 +1427,7 @@ int AttributeTree::get(istream &in, bool process_include, bool load_comments,
         }
       }
     }
-    readNextLineInBuffer(in);
   }
-  while (!in.eof());
   return -1;
 }
 
-- 
2.43.0


From 1ef6c2b7e0f55c6f347cf9eb905cb39d49cf95fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:46 +0000
Subject: [PATCH 20/90] fix: number new attribute tree nodes beyond 100000
 without reusing a name

---
 src/icl_core/src/icl_core_config/AttributeTree.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/icl_core/src/icl_core_config/AttributeTree.cpp b/src/icl_core/src/icl_core_config/AttributeTree.cpp
index 3cb2286..c3c29e0 100644
--- a/src/icl_core/src/icl_core_config/AttributeTree.cpp
+++ b/src/icl_core/src/icl_core_config/AttributeTree.cpp
@@ -1069,10 +1069,10 @@ char* AttributeTree::getOrSetDefault(const char *description, const char *defaul
 char *AttributeTree::newSubNodeDescription(const char *base_description)
 {
   int base_len = strlen(base_description);
-  char *description = (char*)malloc(base_len + 6);
+  char *description = (char*)malloc(base_len + 24);
   assert(description != NULL); // Just abort if we are out of memory.
   strcpy(description, base_description);
-  int i = 1;
+  unsigned long i = 1;
   int j = 0;
 
   // find the maxima length of number in base_description
@@ -1084,16 +1084,16 @@ char *AttributeTree::newSubNodeDescription(const char *base_description)
     }
     if (j!=0)
     {
-      i = atoi(description + base_len - j) + 1;
+      i = strtoul(description + base_len - j, NULL, 10) + 1;
     }
   }
 
-  sprintf(description + base_len - j, "%i", i);
+  sprintf(description + base_len - j, "%lu", i);
 
-  while (getSubTree(description) && i < 100000)
+  while (getSubTree(description))
   {
     i++;
-    sprintf(description + base_len - j, "%i", i);
+    sprintf(description + base_len - j, "%lu", i);
   }
   return description;
 }
-- 
2.43.0


From ca850da0a56f2277bfa9156d9418845aa2801b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:15 +0000
Subject: [PATCH 21/90] fix: never write single-line comments and includes of
 an attribute tree as a block

---
 src/icl_core/src/icl_core_config/AttributeTree.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/icl_core/src/icl_core_config/AttributeTree.cpp b/src/icl_core/src/icl_core_config/AttributeTree.cpp
index c3c29e0..81344f9 100644
--- a/src/icl_core/src/icl_core_config/AttributeTree.cpp
+++ b/src/icl_core/src/icl_core_config/AttributeTree.cpp
@@ -1169,7 +1169,9 @@ void AttributeTree::printSubTree(ostream& out, int change_style_depth, const cha
   size_t tud_len = strlen(the_upper_description);
   size_t tab_len = strspn(the_upper_description, " ");
   int contents = contains();
-  if (contents >= change_style_depth || hasMultilineComment())
+  // Comments and includes are only recognised when they are not written as a block.
+  bool directive = isComment() || (m_this_description && !strcmp(m_this_description, include_str));
+  if ((contents >= change_style_depth && !directive) || hasMultilineComment())
   {
     string tab(the_upper_description, tab_len);
     out << the_upper_description << (tab_len < tud_len ? "." : "") << t_description << '{' << endl;
-- 
2.43.0


From 94819258402c63a25846ef6b1c13bd2afc77116f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:38 +0000
Subject: [PATCH 22/90] fix: leave a block of an attribute tree file to where
 it was entered

---
 src/icl_core/src/icl_core_config/AttributeTree.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/icl_core/src/icl_core_config/AttributeTree.cpp b/src/icl_core/src/icl_core_config/AttributeTree.cpp
index 81344f9..bc13398 100644
--- a/src/icl_core/src/icl_core_config/AttributeTree.cpp
+++ b/src/icl_core/src/icl_core_config/AttributeTree.cpp
@@ -27,6 +27,8 @@
 #include <stdlib.h>
 #include <string.h>
 
+#include <vector>
+
 #ifdef _SYSTEM_WIN32_
 #include <direct.h>
 #endif
@@ -1297,6 +1299,8 @@ int AttributeTree::get(istream &in, bool process_include, bool load_comments,
   string buffer;
   char *attribute, *line;
   AttributeTree *at = this;
+  // the nodes that contain the currently open blocks
+  std::vector<AttributeTree*> blocks;
   int lineno = 1;
 
   while (readNextLine(in, buffer))
@@ -1395,6 +1399,7 @@ int AttributeTree::get(istream &in, bool process_include, bool load_comments,
           }
           else
           {
+            blocks.push_back(at);
             at = at->setAttribute(line, 0);
           }
         }
@@ -1403,7 +1408,7 @@ int AttributeTree::get(istream &in, bool process_include, bool load_comments,
           attribute = strchr(line, '}');
           if (attribute)
           {
-            if (at == this)
+            if (blocks.empty())
             {
               //LOCAL_PRINTF("AttributeTree::get >> found last '}'\n");
               return -1;
@@ -1411,11 +1416,8 @@ int AttributeTree::get(istream &in, bool process_include, bool load_comments,
             else
             {
               //LOCAL_PRINTF("AttributeTree::get >> found '}'\n");
-              if (!at->parentTree())
-              {
-                return lineno;
-              }
-              at = at->parentTree();
+              at = blocks.back();
+              blocks.pop_back();
             }
           }
           else
-- 
2.43.0


From abe701ed5025079ac8eaa5d473d543d22e6a370c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:37 +0000
Subject: [PATCH 23/90] fix: report attribute tree files that include
 themselves

---
 src/icl_core/src/icl_core_config/AttributeTree.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/icl_core/src/icl_core_config/AttributeTree.cpp b/src/icl_core/src/icl_core_config/AttributeTree.cpp
index bc13398..30b033d 100644
--- a/src/icl_core/src/icl_core_config/AttributeTree.cpp
+++ b/src/icl_core/src/icl_core_config/AttributeTree.cpp
@@ -27,6 +27,7 @@
 #include <stdlib.h>
 #include <string.h>
 
+#include <algorithm>
 #include <vector>
 
 #ifdef _SYSTEM_WIN32_
@@ -1271,7 +1272,16 @@ int AttributeTree::load(const char *filename, bool unmark_changes, bool process_
     return eFILE_LOAD_ERROR;
   }
 
+  // A file that is included by itself would be read forever.
+  static std::vector<std::string> open_files;
+  if (std::find(open_files.begin(), open_files.end(), at_file.absoluteName()) != open_files.end())
+  {
+    printf("tAttributeTree >> File '%s' includes itself\n", at_file.absoluteName().c_str());
+    return eFILE_LOAD_ERROR;
+  }
+  open_files.push_back(at_file.absoluteName());
   error = get(in, process_include, load_comments, &at_file);
+  open_files.pop_back();
   if (error >= 0)
   {
     printf("Error in line %i while reading AttributeTree %s\n", error,
-- 
2.43.0


From ea8908447b7d68ce5baa0f1c80e796847451f671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:29 +0000
Subject: [PATCH 24/90] fix: normalise paths with leading or repeated parent
 directories

---
 .../src/icl_core_config/AttributeTree.cpp     | 62 ++++++++-----------
 1 file changed, 25 insertions(+), 37 deletions(-)

diff --git a/src/icl_core/src/icl_core_config/AttributeTree.cpp b/src/icl_core/src/icl_core_config/AttributeTree.cpp
index 30b033d..0b3a58b 100644
--- a/src/icl_core/src/icl_core_config/AttributeTree.cpp
+++ b/src/icl_core/src/icl_core_config/AttributeTree.cpp
@@ -137,8 +137,7 @@ icl_core::String FilePath::normalizePath(const icl_core::String& _filename)
   {
     //DEBUGMSG(DD_SYSTEM, DL_VERBOSE, "FilePath::normalizePath>> SingleDots at begin '%s'\n",
     //         filename.c_str());
-    string temp_filename(filename, 2, string::npos);
-    temp_filename.swap(filename);
+    filename.erase(0, filename.find_first_not_of(DSEP, 1));
   }
 #ifdef _SYSTEM_WIN32_
   // Search for single dots after the drive letter at the beginning.
@@ -175,46 +174,36 @@ icl_core::String FilePath::normalizePath(const icl_core::String& _filename)
     //DEBUGMSG(DD_SYSTEM, DL_VERBOSE, "FilePath::normalizePath>> DoubleDots '%s' found at %i\n",
     //         filename.c_str(), dot_start);
 
-    // Check if we can shorten the path.
-    slash_before_dot = filename.rfind(DSEP, dot_start - 1);
-    if (slash_before_dot != string::npos)
+    // Find the component in front of the double dots.
+    slash_before_dot = (dot_start > 0) ? filename.rfind(DSEP, dot_start - 1) : string::npos;
+    string::size_type component = (slash_before_dot != string::npos) ? slash_before_dot + 1 : 0;
+    if (dot_start == 0
+        || (filename[dot_start-1] == ':' && component + 2 == dot_start && DSEP == '\\'))
     {
-      // OK to shorten?
-      if (filename[slash_before_dot+1] != DSEP && filename[slash_before_dot+1] != '.' &&
-          (slash_before_dot >= 1) ? filename[slash_before_dot-1] != ':' : 1)
-      {
-        dot_start += 3;
-        string temp_filename(filename, 0, slash_before_dot);
-        temp_filename.append(filename, dot_start, filename.length() - dot_start);
-        temp_filename.swap(filename);
-      }
-      else
-      {
-        break;
-      }
-
+      // The root directory is its own parent.
+      filename.erase(dot_start, 3);
+    }
+    else if (component == dot_start)
+    {
+      // Doubled separators count as one.
+      filename.erase(component, 1);
       dot_start = slash_before_dot;
     }
-    else if (dot_start > 0)
+    else if (filename.compare(component, dot_start - component, "..") == 0)
     {
-      string temp_filename;
-
-#ifdef _SYSTEM_WIN32_
-      // Add drive letter?
-      if (filename[1] = ':')
-      {
-        temp_filename.append(filename, 0, 2);
-      }
-#endif
-      // Really??
-      dot_start += 2;
-      temp_filename.append(filename, dot_start, filename.length() - dot_start);
-      temp_filename.swap(filename);
-      dot_start = 0;
+      // Nothing to go back to.
+      dot_start += 3;
     }
     else
     {
-      break;
+      dot_start += 4;
+      // The rest of a relative path must not begin with a separator.
+      while (component == 0 && dot_start < filename.length() && filename[dot_start] == DSEP)
+      {
+        ++dot_start;
+      }
+      filename.erase(component, dot_start - component);
+      dot_start = (slash_before_dot != string::npos) ? slash_before_dot : 0;
     }
 
     dot_start = filename.find(string(1, DSEP) + ".." + DSEP, dot_start);
@@ -225,8 +214,7 @@ icl_core::String FilePath::normalizePath(const icl_core::String& _filename)
   {
     //DEBUGMSG(DD_SYSTEM, DL_VERBOSE, "FilePath::normalizePath>> SingleDots at begin '%s'\n",
     //         filename.c_str());
-    string temp_filename(filename, 2, string::npos);
-    temp_filename.swap(filename);
+    filename.erase(0, filename.find_first_not_of(DSEP, 1));
   }
 #ifdef _SYSTEM_WIN32_
   dot_start = 0;
-- 
2.43.0


From 2289b8008c70333839094a665c53968d9696eec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:29 +0000
Subject: [PATCH 25/90] fix: files without extension have an empty extension

---
 src/icl_core/src/icl_core_config/AttributeTree.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/icl_core/src/icl_core_config/AttributeTree.cpp b/src/icl_core/src/icl_core_config/AttributeTree.cpp
index 0b3a58b..582b3e8 100644
--- a/src/icl_core/src/icl_core_config/AttributeTree.cpp
+++ b/src/icl_core/src/icl_core_config/AttributeTree.cpp
@@ -454,6 +454,12 @@ void FilePath::init(const char* filename)
   }
 
   m_file_name_extension_split = m_file.rfind('.');
+  // Only a dot within the file name starts an extension.
+  if (m_file_name_extension_split == string::npos
+      || m_file_name_extension_split < m_file_path_name_split)
+  {
+    m_file_name_extension_split = m_file.length();
+  }
 }
 
 
-- 
2.43.0


From d6a045448e41313ffe6dd052671f89f38de338d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:37 +0000
Subject: [PATCH 26/90] fix: report long command line options without their
 value

---
 src/icl_core/src/icl_core_config/GetoptParser.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/icl_core/src/icl_core_config/GetoptParser.cpp b/src/icl_core/src/icl_core_config/GetoptParser.cpp
index 9f04e5c..4f9883a 100644
--- a/src/icl_core/src/icl_core_config/GetoptParser.cpp
+++ b/src/icl_core/src/icl_core_config/GetoptParser.cpp
@@ -149,9 +149,9 @@ bool Getopt::initialize(int& argc, char *argv[], CommandLineCleaning cleanup,
       {
         if (find_it->second.hasValue())
         {
-          // According to the regular expression the value has to be
-          // the 3rd (and last) match result.
-          if (mres.size() == 4)
+          // According to the regular expression the value is the 3rd
+          // (and last) match result, if the 2nd one has been found at all.
+          if (mres[2].matched)
           {
             m_param_opt[name] = mres[3];
           }
@@ -182,7 +182,7 @@ bool Getopt::initialize(int& argc, char *argv[], CommandLineCleaning cleanup,
 
             if (prefix_it->second.hasValue())
             {
-              if (mres.size() == 4)
+              if (mres[2].matched)
               {
                 m_prefix_param_opt[prefix_it->first].push_back(KeyValue(prefix_res[1], mres[3]));
               }
-- 
2.43.0


From 3b5fb0379487c5d23d9236a0ff5673e655c16f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:37 +0000
Subject: [PATCH 27/90] fix: take prefix option names literally, not as regular
 expressions

---
 src/icl_core/src/icl_core_config/GetoptParser.cpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/icl_core/src/icl_core_config/GetoptParser.cpp b/src/icl_core/src/icl_core_config/GetoptParser.cpp
index 4f9883a..862656e 100644
--- a/src/icl_core/src/icl_core_config/GetoptParser.cpp
+++ b/src/icl_core/src/icl_core_config/GetoptParser.cpp
@@ -172,11 +172,10 @@ bool Getopt::initialize(int& argc, char *argv[], CommandLineCleaning cleanup,
         // Parameter not found in the list of configured parameters.
         // Check if a matching prefix option has been registered.
         bool found = false;
-        boost::smatch prefix_res;
         for (ParameterMap::const_iterator prefix_it = m_prefix_parameters.begin();
              !found && prefix_it != m_prefix_parameters.end(); ++prefix_it)
         {
-          if (boost::regex_match(name, prefix_res, boost::regex(prefix_it->first + "(.*)")))
+          if (name.compare(0, prefix_it->first.length(), prefix_it->first) == 0)
           {
             found = true;
 
@@ -184,7 +183,7 @@ bool Getopt::initialize(int& argc, char *argv[], CommandLineCleaning cleanup,
             {
               if (mres[2].matched)
               {
-                m_prefix_param_opt[prefix_it->first].push_back(KeyValue(prefix_res[1], mres[3]));
+                m_prefix_param_opt[prefix_it->first].push_back(KeyValue(name.substr(prefix_it->first.length()), mres[3]));
               }
               else
               {
@@ -195,7 +194,7 @@ bool Getopt::initialize(int& argc, char *argv[], CommandLineCleaning cleanup,
             }
             else
             {
-              m_prefix_param_opt[prefix_it->first].push_back(KeyValue(prefix_res[1], "yes"));
+              m_prefix_param_opt[prefix_it->first].push_back(KeyValue(name.substr(prefix_it->first.length()), "yes"));
             }
           }
         }
@@ -248,11 +247,10 @@ bool Getopt::initialize(int& argc, char *argv[], CommandLineCleaning cleanup,
         // Parameter not found in the list of configured parameters.
         // Check if a matching prefix option has been registered.
         bool found = false;
-        boost::smatch prefix_res;
         for (ParameterMap::const_iterator prefix_it = m_short_prefix_parameters.begin();
              !found && prefix_it != m_short_prefix_parameters.end(); ++prefix_it)
         {
-          if (boost::regex_match(name, prefix_res, boost::regex(prefix_it->first + "(.*)")))
+          if (name.compare(0, prefix_it->first.length(), prefix_it->first) == 0)
           {
             found = true;
 
@@ -268,12 +266,12 @@ bool Getopt::initialize(int& argc, char *argv[], CommandLineCleaning cleanup,
               }
               else
               {
-                m_prefix_param_opt[prefix_it->second.option()].push_back(KeyValue(prefix_res[1], *arg_it));
+                m_prefix_param_opt[prefix_it->second.option()].push_back(KeyValue(name.substr(prefix_it->first.length()), *arg_it));
               }
             }
             else
             {
-              m_prefix_param_opt[prefix_it->second.option()].push_back(KeyValue(prefix_res[1], "yes"));
+              m_prefix_param_opt[prefix_it->second.option()].push_back(KeyValue(name.substr(prefix_it->first.length()), "yes"));
             }
           }
         }
-- 
2.43.0


From eadead06b73d2ec034aa315e4f9f3886f1d8ad01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:48 +0000
Subject: [PATCH 28/90] fix: remove only the recognised arguments from the
 command line

---
 .../src/icl_core_config/GetoptParser.cpp      | 31 +++++++++----------
 1 file changed, 14 insertions(+), 17 deletions(-)

diff --git a/src/icl_core/src/icl_core_config/GetoptParser.cpp b/src/icl_core/src/icl_core_config/GetoptParser.cpp
index 862656e..5bca57e 100644
--- a/src/icl_core/src/icl_core_config/GetoptParser.cpp
+++ b/src/icl_core/src/icl_core_config/GetoptParser.cpp
@@ -130,11 +130,14 @@ bool Getopt::initialize(int& argc, char *argv[], CommandLineCleaning cleanup,
   // registered options.
   size_t positional_parameters_counter = 0;
   bool extra_cmd_params_reached = false;
+  // For each of the non-option parameters, its index in argv.
+  icl_core::Vector<int> non_opt_indices;
+  int arg_index = 1;
   boost::regex long_opt_regex("--([^-][^=]*)(=(.*))?");
   boost::regex short_opt_regex("-([^-].*)");
   boost::smatch mres;
   for (icl_core::List<icl_core::String>::const_iterator arg_it = arguments.begin();
-       arg_it != arguments.end(); ++arg_it)
+       arg_it != arguments.end(); ++arg_it, ++arg_index)
   {
     if (extra_cmd_params_reached)
     {
@@ -211,6 +214,7 @@ bool Getopt::initialize(int& argc, char *argv[], CommandLineCleaning cleanup,
           else
           {
             m_param_non_opt.push_back(*arg_it);
+            non_opt_indices.push_back(arg_index);
           }
         }
       }
@@ -226,6 +230,7 @@ bool Getopt::initialize(int& argc, char *argv[], CommandLineCleaning cleanup,
         {
           // The value is the next commandline argument.
           ++arg_it;
+          ++arg_index;
           if (arg_it == arguments.end())
           {
             std::cerr << "Found option -" << name << " but the value is missing." << std::endl;
@@ -258,6 +263,7 @@ bool Getopt::initialize(int& argc, char *argv[], CommandLineCleaning cleanup,
             {
               // The value is the next commandline argument.
               ++arg_it;
+              ++arg_index;
               if (arg_it == arguments.end())
               {
                 std::cerr << "Found prefix option " << name << " but the value is missing." << std::endl;
@@ -288,6 +294,7 @@ bool Getopt::initialize(int& argc, char *argv[], CommandLineCleaning cleanup,
           else
           {
             m_param_non_opt.push_back(*arg_it);
+            non_opt_indices.push_back(arg_index);
           }
         }
       }
@@ -325,6 +332,7 @@ bool Getopt::initialize(int& argc, char *argv[], CommandLineCleaning cleanup,
 //      else
       {
         m_param_non_opt.push_back(*arg_it);
+        non_opt_indices.push_back(arg_index);
       }
     }
   }
@@ -347,24 +355,13 @@ bool Getopt::initialize(int& argc, char *argv[], CommandLineCleaning cleanup,
   // Remove all option parameters from the "real" commandline.
   if (cleanup == eCLC_Cleanup)
   {
-    int check = 1;
-    while (check < argc)
+    int kept = 1;
+    for (size_t index = 0; index < non_opt_indices.size(); ++index)
     {
-      icl_core::Vector<icl_core::String>::const_iterator find_it =
-        std::find(m_param_non_opt.begin(), m_param_non_opt.end(), icl_core::String(argv[check]));
-      if (find_it == m_param_non_opt.end())
-      {
-        for (int move = check + 1; move < argc; ++move)
-        {
-          argv[move - 1] = argv[move];
-        }
-        --argc;
-      }
-      else
-      {
-        ++check;
-      }
+      argv[kept] = argv[non_opt_indices[index]];
+      ++kept;
     }
+    argc = kept;
   }
 
   return true;
-- 
2.43.0


From 3228b000c63459e5c23fb1b9c3b183465e97a0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:07 +0000
Subject: [PATCH 29/90] fix: report configuration files that include themselves

---
 src/icl_core/src/icl_core_config/ConfigManager.cpp | 10 ++++++++++
 src/icl_core/src/icl_core_config/ConfigManager.h   |  3 +++
 2 files changed, 13 insertions(+)

diff --git a/src/icl_core/src/icl_core_config/ConfigManager.cpp b/src/icl_core/src/icl_core_config/ConfigManager.cpp
index 673c78b..c1867d5 100644
--- a/src/icl_core/src/icl_core_config/ConfigManager.cpp
+++ b/src/icl_core/src/icl_core_config/ConfigManager.cpp
@@ -22,6 +22,7 @@
 #include "icl_core_config/ConfigManager.h"
 
 #include <assert.h>
+#include <algorithm>
 #include <iostream>
 #include <tinyxml.h>
 
@@ -210,13 +211,22 @@ bool ConfigManager::load(const icl_core::String& filename)
   }
   else
   {
+    // A file that is included by itself would be read forever.
+    if (std::find(m_open_files.begin(), m_open_files.end(), fp.absoluteName()) != m_open_files.end())
+    {
+      std::cerr << "CONFIG ERROR: The configuration file '" << filename << "' includes itself!" << std::endl;
+      return false;
+    }
+
     TiXmlDocument doc(filename.c_str());
     if (doc.LoadFile())
     {
       TiXmlElement *root_element = doc.RootElement();
       if (root_element != 0)
       {
+        m_open_files.push_back(fp.absoluteName());
         readXml("", root_element, fp, false);
+        m_open_files.pop_back();
       }
       return true;
     }
diff --git a/src/icl_core/src/icl_core_config/ConfigManager.h b/src/icl_core/src/icl_core_config/ConfigManager.h
index 87f56fb..a18770f 100644
--- a/src/icl_core/src/icl_core_config/ConfigManager.h
+++ b/src/icl_core/src/icl_core_config/ConfigManager.h
@@ -233,6 +233,9 @@ private:
   //KeyValueMap m_config_items;
   bool m_initialized;
 
+  //! The XML files which are currently being read.
+  icl_core::List<icl_core::String> m_open_files;
+
   ConfigParameterList m_parameter_list;
   ConfigPositionalParameterList m_postional_parameter_list;
 
-- 
2.43.0


From b14c22cf1f893e1a38cb24bbd3ad3a6c0124f65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:07 +0000
Subject: [PATCH 30/90] fix: a key passed to registerObserver is not a pattern

---
 src/icl_core/src/icl_core_config/ConfigManager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/icl_core/src/icl_core_config/ConfigManager.cpp b/src/icl_core/src/icl_core_config/ConfigManager.cpp
index c1867d5..eec41a0 100644
--- a/src/icl_core/src/icl_core_config/ConfigManager.cpp
+++ b/src/icl_core/src/icl_core_config/ConfigManager.cpp
@@ -319,7 +319,7 @@ void ConfigManager::registerObserver(ConfigObserver *observer, const icl_core::S
       observer->valueChanged(iter.key());
     }
   }
-  else if (find(key).next())
+  else if (hasKey(key))
   {
     observer->valueChanged(key);
   }
-- 
2.43.0


From 8153ce4eda377711452ccf59568ce3cf57494c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:53 +0000
Subject: [PATCH 31/90] fix: typed configuration reads fail for texts that are
 not a value of the type

---
 src/icl_core/src/icl_core_config/Util.h | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/icl_core/src/icl_core_config/Util.h b/src/icl_core/src/icl_core_config/Util.h
index fac3669..5d2fa34 100644
--- a/src/icl_core/src/icl_core_config/Util.h
+++ b/src/icl_core/src/icl_core_config/Util.h
@@ -36,8 +36,27 @@ namespace config {
 //! Namespace for internal implementation details.
 namespace impl {
 
+//! Reads a value which has to make up the whole \a interpreter text.
+template <typename T>
+void read_all(std::stringstream& interpreter, T& result)
+{
+  if (!(interpreter >> result) || !(interpreter >> std::ws).eof())
+  {
+    throw std::invalid_argument("Not a value of the requested type: " + interpreter.str());
+  }
+}
+
+//! A string is the whole text, including all whitespace.
+inline
+void read_all(std::stringstream& interpreter, std::string& result)
+{
+  result = interpreter.str();
+}
+
 /*! Lexical cast which handles hexadecimal and octal numbers
  *  correctly.
+ *  \li If the input is not a value of the requested type,
+ *      std::invalid_argument is thrown.
  */
 template <typename T, typename U>
 T hexical_cast(U input)
@@ -46,7 +65,7 @@ T hexical_cast(U input)
   interpreter.setf(std::ios::fmtflags(), std::ios::basefield);
   interpreter << input;
   T result;
-  interpreter >> result;
+  read_all(interpreter, result);
   return result;
 }
 
-- 
2.43.0


From 8f947f8db1ed7f6bdd9967ca77cbc1d2d49bf9b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:14 +0000
Subject: [PATCH 32/90] fix: a truth value has to make up the whole
 configuration text

---
 src/icl_core/src/icl_core_config/Util.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/icl_core/src/icl_core_config/Util.h b/src/icl_core/src/icl_core_config/Util.h
index 5d2fa34..d94da5c 100644
--- a/src/icl_core/src/icl_core_config/Util.h
+++ b/src/icl_core/src/icl_core_config/Util.h
@@ -108,8 +108,8 @@ bool strict_bool_cast(U input)
   std::stringstream interpreter;
   interpreter.setf(std::ios::fmtflags(), std::ios::basefield);
   interpreter << input;
-  std::string result;
-  interpreter >> result;
+  std::string result = interpreter.str();
+  boost::algorithm::trim(result);
   boost::algorithm::to_lower(result);
   if (result == "1" || result == "yes" || result == "true")
   {
-- 
2.43.0


From 0d935b3e320bb64384ef9ea758ec016f0709e1e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:14 +0000
Subject: [PATCH 33/90] fix: read truth values of the command line like those
 of the configuration

---
 src/icl_core/src/icl_core_config/Util.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/icl_core/src/icl_core_config/Util.h b/src/icl_core/src/icl_core_config/Util.h
index d94da5c..8af82df 100644
--- a/src/icl_core/src/icl_core_config/Util.h
+++ b/src/icl_core/src/icl_core_config/Util.h
@@ -125,6 +125,14 @@ bool strict_bool_cast(U input)
   }
 }
 
+//! Truth values are written as for strict_bool_cast().
+template <>
+inline
+bool hexical_cast<bool, std::string>(std::string input)
+{
+  return strict_bool_cast(input);
+}
+
 }
 }
 }
-- 
2.43.0


From 816f484f2784cc564d4252859c4790b4b1141856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:13 +0000
Subject: [PATCH 34/90] fix: the prefix of a configuration list is not a
 pattern

---
 src/icl_core/src/icl_core_config/ConfigList.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/icl_core/src/icl_core_config/ConfigList.h b/src/icl_core/src/icl_core_config/ConfigList.h
index 8c315cf..071a457 100644
--- a/src/icl_core/src/icl_core_config/ConfigList.h
+++ b/src/icl_core/src/icl_core_config/ConfigList.h
@@ -71,7 +71,7 @@ public:
     bool result = false;
     bool error = false;
     ConfigIterator cIter = ConfigManager::instance().find(
-      boost::regex_replace(prefix + m_config_prefix, boost::regex("\\/"), "\\\\\\/") + "\\/(.+?)(\\/(.+))?");
+      boost::regex_replace(prefix + m_config_prefix, boost::regex("[^A-Za-z0-9_]"), "\\\\$&") + "\\/(.+?)(\\/(.+))?");
     while(cIter.next())
     {
       bool found = false;
-- 
2.43.0


From 226ef6d20fb6a46106d261d8a0e45fad328f863b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:49 +0000
Subject: [PATCH 35/90] fix: semaphore waits are not ended by a signal

---
 .../src/icl_core_logging/SemaphoreImplPosix.cpp    |  7 ++++++-
 .../src/icl_core_thread/SemaphoreImplPosix.cpp     | 14 ++++++++++++--
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/icl_core/src/icl_core_logging/SemaphoreImplPosix.cpp b/src/icl_core/src/icl_core_logging/SemaphoreImplPosix.cpp
index 9d23ad7..47a5d69 100644
--- a/src/icl_core/src/icl_core_logging/SemaphoreImplPosix.cpp
+++ b/src/icl_core/src/icl_core_logging/SemaphoreImplPosix.cpp
@@ -50,7 +50,12 @@ void SemaphoreImplPosix::post()
 
 bool SemaphoreImplPosix::wait()
 {
-  int res = sem_wait(m_semaphore);
+  int res;
+  do
+  {
+    // A signal handler that ran in the meantime must not end the wait.
+    res = sem_wait(m_semaphore);
+  } while (res != 0 && errno == EINTR);
   return (res == 0);
 }
 
diff --git a/src/icl_core/src/icl_core_thread/SemaphoreImplPosix.cpp b/src/icl_core/src/icl_core_thread/SemaphoreImplPosix.cpp
index 7a2f996..deacf4d 100644
--- a/src/icl_core/src/icl_core_thread/SemaphoreImplPosix.cpp
+++ b/src/icl_core/src/icl_core_thread/SemaphoreImplPosix.cpp
@@ -58,7 +58,12 @@ bool SemaphoreImplPosix::tryWait()
 
 bool SemaphoreImplPosix::wait()
 {
-  int res = sem_wait(m_semaphore);
+  int res;
+  do
+  {
+    // A signal handler that ran in the meantime must not end the wait.
+    res = sem_wait(m_semaphore);
+  } while (res != 0 && errno == EINTR);
   return (res == 0);
 }
 
@@ -70,7 +75,12 @@ bool SemaphoreImplPosix::wait(const icl_core::TimeSpan& timeout)
 bool SemaphoreImplPosix::wait(const icl_core::TimeStamp& timeout)
 {
   struct timespec timeout_spec = timeout.timespec();
-  int res = sem_timedwait(m_semaphore, &timeout_spec);
+  int res;
+  do
+  {
+    // A signal handler that ran in the meantime must not end the wait.
+    res = sem_timedwait(m_semaphore, &timeout_spec);
+  } while (res != 0 && errno == EINTR);
   return (res == 0);
 }
 
-- 
2.43.0


From dfc3a5bed419365a742c500253ecade4c4ef2125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:02 +0000
Subject: [PATCH 36/90] fix: SpinLock::tryLock reports success if it took the
 lock

---
 src/icl_core/src/icl_core_thread/SpinLock.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/icl_core/src/icl_core_thread/SpinLock.h b/src/icl_core/src/icl_core_thread/SpinLock.h
index ab955c5..85fafa2 100644
--- a/src/icl_core/src/icl_core_thread/SpinLock.h
+++ b/src/icl_core/src/icl_core_thread/SpinLock.h
@@ -59,7 +59,7 @@ public:
    */
   bool tryLock()
   {
-    return (m_state.exchange(LOCKED, boost::memory_order_acquire) == LOCKED);
+    return (m_state.exchange(LOCKED, boost::memory_order_acquire) == UNLOCKED);
   }
 
   //! Unlocks the mutex.
-- 
2.43.0


From 630f30066bc2fbfd3414eb07bbbb1830feca37e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:18 +0000
Subject: [PATCH 37/90] fix: joining a thread waits for it even if its run has
 already ended

---
 src/icl_core/src/icl_core_thread/Thread.cpp | 45 +++++++++++++--------
 src/icl_core/src/icl_core_thread/Thread.h   |  1 +
 2 files changed, 30 insertions(+), 16 deletions(-)

diff --git a/src/icl_core/src/icl_core_thread/Thread.cpp b/src/icl_core/src/icl_core_thread/Thread.cpp
index fce345e..dac41b9 100644
--- a/src/icl_core/src/icl_core_thread/Thread.cpp
+++ b/src/icl_core/src/icl_core_thread/Thread.cpp
@@ -28,6 +28,7 @@
 
 #include "Common.h"
 #include "Logging.h"
+#include "ScopedMutexLock.h"
 
 #if defined _SYSTEM_LXRT_
 # include "ThreadImplLxrt.h"
@@ -100,8 +101,8 @@ void Thread::cancel()
   {
     LOGGING_DEBUG_CO(IclCoreThread, Thread,  threadInfo(), "Still running." << endl);
     m_execute = false;
-    m_impl->cancel();
     m_finished = true;
+    m_impl->cancel();
   }
   LOGGING_DEBUG_CO(IclCoreThread, Thread, threadInfo(), "Done." << endl);
 }
@@ -137,12 +138,21 @@ bool Thread::executesHardRealtime() const
 
 void Thread::join()
 {
-  if (running())
+  // A thread cannot wait for itself.
+  if (icl_core::os::threadSelf() == threadId())
   {
-    m_impl->join();
+    return;
   }
 
-  m_joined = true;
+  // Join even if the run loop has already been left: The thread is not
+  // gone until then. Several threads may wait for the same thread, but
+  // it must only be joined once.
+  ScopedMutexLock lock(m_join_mutex);
+  if (!m_joined)
+  {
+    m_impl->join();
+    m_joined = true;
+  }
 }
 
 icl_core::ThreadPriority Thread::priority() const
@@ -228,21 +238,24 @@ void Thread::runThread()
 
   LOGGING_TRACE_CO(IclCoreThread, Thread, threadInfo(), "Begin." << endl);
 
-  m_thread_mutex.lock();
-  m_execute = true;
-  m_starting = false;
-  m_finished = false;
+  {
+    // The mutex has to be released if the thread is cancelled, too.
+    ScopedMutexLock lock(m_thread_mutex);
+    m_execute = true;
+    m_finished = false;
+    m_starting = false;
 
-  // If this is actually a periodic thread, this call makes it periodic.
-  // It this is a "normal" thread, this call does nothing.
-  makePeriodic();
+    // If this is actually a periodic thread, this call makes it periodic.
+    // It this is a "normal" thread, this call does nothing.
+    makePeriodic();
 
-  // Call the run loop.
-  run();
+    // Call the run loop.
+    run();
 
-  m_execute = false;
-  m_thread_mutex.unlock();
-  m_finished = true;
+    // Whoever waits for the mutex must find the thread finished.
+    m_execute = false;
+    m_finished = true;
+  }
 
   LOGGING_TRACE_CO(IclCoreThread, Thread, threadInfo(), "Done." << endl);
 }
diff --git a/src/icl_core/src/icl_core_thread/Thread.h b/src/icl_core/src/icl_core_thread/Thread.h
index 550ce0e..6f56ad4 100644
--- a/src/icl_core/src/icl_core_thread/Thread.h
+++ b/src/icl_core/src/icl_core_thread/Thread.h
@@ -404,6 +404,7 @@ private:
   icl_core::ThreadPriority m_priority;
 
   Mutex m_thread_mutex;
+  Mutex m_join_mutex;
 
   ThreadImpl *m_impl;
 
-- 
2.43.0


From 70b8fba26a8d1dabb4a068458edcf59a06de3db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:10 +0000
Subject: [PATCH 38/90] fix: an active object keeps no operation it will not
 execute

---
 .../src/icl_core_thread/ActiveObject.cpp      | 60 ++++++++++++-------
 .../src/icl_core_thread/ActiveObject.h        |  4 ++
 2 files changed, 41 insertions(+), 23 deletions(-)

diff --git a/src/icl_core/src/icl_core_thread/ActiveObject.cpp b/src/icl_core/src/icl_core_thread/ActiveObject.cpp
index 8b53767..4da2f01 100644
--- a/src/icl_core/src/icl_core_thread/ActiveObject.cpp
+++ b/src/icl_core/src/icl_core_thread/ActiveObject.cpp
@@ -42,31 +42,18 @@ void ActiveObject::run()
     if (execute())
     {
       // Process all queued operations.
-      while (!m_operation_queue.empty())
+      while (ActiveOperation *op = dequeue())
       {
-        // Try to lock the queue mutex
-        if (m_operation_queue_mutex.lock())
-        {
-          // Extract the next pending operation from the queue.
-          ActiveOperation *op = m_operation_queue.front();
-          m_operation_queue.pop_front();
-
-          // Release the mutex before executing the operation!
-          m_operation_queue_mutex.unlock();
-
-          // Finally, execute the operation.
-          op->invoke();
-          delete op;
-        }
+        op->invoke();
+        delete op;
       }
     }
   }
 
   // Delete any pending operations.
-  while (!m_operation_queue.empty())
+  while (ActiveOperation *op = dequeue())
   {
-    delete m_operation_queue.front();
-    m_operation_queue.pop_front();
+    delete op;
   }
 
   onThreadStop();
@@ -80,16 +67,43 @@ void ActiveObject::stop()
 
 void ActiveObject::queue(ActiveOperation *active_operation)
 {
-  if (execute() && m_operation_queue_mutex.lock())
+  // Check under the lock if the operation is still accepted: Once the
+  // thread has been stopped nobody looks for further operations.
+  if (m_operation_queue_mutex.lock())
   {
-    m_operation_queue.push_back(active_operation);
+    bool accepted = execute();
+    if (accepted)
+    {
+      m_operation_queue.push_back(active_operation);
+    }
     m_operation_queue_mutex.unlock();
-    m_sem.post();
+
+    if (accepted)
+    {
+      m_sem.post();
+      return;
+    }
   }
-  else
+
+  delete active_operation;
+}
+
+ActiveOperation *ActiveObject::dequeue()
+{
+  ActiveOperation *op = NULL;
+
+  // Release the mutex before the operation is executed!
+  if (m_operation_queue_mutex.lock())
   {
-    delete active_operation;
+    if (!m_operation_queue.empty())
+    {
+      op = m_operation_queue.front();
+      m_operation_queue.pop_front();
+    }
+    m_operation_queue_mutex.unlock();
   }
+
+  return op;
 }
 
 }
diff --git a/src/icl_core/src/icl_core_thread/ActiveObject.h b/src/icl_core/src/icl_core_thread/ActiveObject.h
index cbd5326..d02c599 100644
--- a/src/icl_core/src/icl_core_thread/ActiveObject.h
+++ b/src/icl_core/src/icl_core_thread/ActiveObject.h
@@ -88,6 +88,10 @@ protected:
   icl_core::List<ActiveOperation*> m_operation_queue;
   Mutex m_operation_queue_mutex;
   Semaphore m_sem;
+
+private:
+  //! Takes the next operation from the queue, NULL if there is none.
+  ActiveOperation *dequeue();
 };
 
 }
-- 
2.43.0


From 10baeeddc649a7ae9aeb183d531935f2a5946f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:40 +0000
Subject: [PATCH 39/90] fix: periodic threads release their timer descriptor

---
 .../PeriodicThreadImplTimerfd.cpp              | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/icl_core/src/icl_core_thread/PeriodicThreadImplTimerfd.cpp b/src/icl_core/src/icl_core_thread/PeriodicThreadImplTimerfd.cpp
index a96e422..a77c182 100644
--- a/src/icl_core/src/icl_core_thread/PeriodicThreadImplTimerfd.cpp
+++ b/src/icl_core/src/icl_core_thread/PeriodicThreadImplTimerfd.cpp
@@ -41,18 +41,26 @@ PeriodicThreadImplTimerfd::PeriodicThreadImplTimerfd(const icl_core::TimeSpan& p
 
 PeriodicThreadImplTimerfd::~PeriodicThreadImplTimerfd()
 {
+  if (timer_created)
+  {
+    close(m_info->timer_fd);
+  }
   delete m_info;
 }
 
 void PeriodicThreadImplTimerfd::makePeriodic()
 {
-  /* Create the timer */
-  int fd = timerfd_create(CLOCK_MONOTONIC, 0);
   m_info->wakeups_missed = 0;
-  m_info->timer_fd = fd;
-  if (fd != -1)
+
+  /* Create the timer, unless it is still there from an earlier run. */
+  if (!timer_created)
   {
-    timer_created = true;
+    int fd = timerfd_create(CLOCK_MONOTONIC, 0);
+    m_info->timer_fd = fd;
+    if (fd != -1)
+    {
+      timer_created = true;
+    }
   }
 
   setPeriod(m_period);
-- 
2.43.0


From 6f03c70399e44f607a46d03ce966bd788e23e220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:56 +0000
Subject: [PATCH 40/90] fix: changing the period of a thread reports success
 and refuses unusable periods

---
 .../PeriodicThreadImplTimerfd.cpp             | 34 ++++++++-----------
 1 file changed, 14 insertions(+), 20 deletions(-)

diff --git a/src/icl_core/src/icl_core_thread/PeriodicThreadImplTimerfd.cpp b/src/icl_core/src/icl_core_thread/PeriodicThreadImplTimerfd.cpp
index a77c182..6c6b08f 100644
--- a/src/icl_core/src/icl_core_thread/PeriodicThreadImplTimerfd.cpp
+++ b/src/icl_core/src/icl_core_thread/PeriodicThreadImplTimerfd.cpp
@@ -68,32 +68,26 @@ void PeriodicThreadImplTimerfd::makePeriodic()
 
 bool PeriodicThreadImplTimerfd::setPeriod(const icl_core::TimeSpan& period)
 {
-  m_period = period;
+  /* A timer without a period would never wake up the thread again. */
+  if (period <= icl_core::TimeSpan())
+  {
+    return false;
+  }
 
-  int ret = -1;
   if (timer_created)
   {
     /* Make the timer periodic */
-    unsigned int ns;
-    unsigned int sec;
     struct itimerspec itval;
-
-    sec = period.tsSec();
-    ns = period.tsNSec();
-    itval.it_interval.tv_sec = sec;
-    itval.it_interval.tv_nsec = ns;
-    itval.it_value.tv_sec = sec;
-    itval.it_value.tv_nsec = ns;
-    ret = timerfd_settime(m_info->timer_fd, 0, &itval, NULL);
-  }
-  if (ret == -1)
-  {
-    return false;
-  }
-  else
-  {
-    return true;
+    itval.it_interval = period.timespec();
+    itval.it_value = period.timespec();
+    if (timerfd_settime(m_info->timer_fd, 0, &itval, NULL) == -1)
+    {
+      return false;
+    }
   }
+
+  m_period = period;
+  return true;
 }
 
 void PeriodicThreadImplTimerfd::waitPeriod()
-- 
2.43.0


From 10f7db1341459c71ab92132b962d9a4c0bc24d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:33 +0000
Subject: [PATCH 41/90] fix: a signal does not release a periodic thread early

---
 .../src/icl_core_thread/PeriodicThreadImplTimerfd.cpp    | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/icl_core/src/icl_core_thread/PeriodicThreadImplTimerfd.cpp b/src/icl_core/src/icl_core_thread/PeriodicThreadImplTimerfd.cpp
index 6c6b08f..fd7e832 100644
--- a/src/icl_core/src/icl_core_thread/PeriodicThreadImplTimerfd.cpp
+++ b/src/icl_core/src/icl_core_thread/PeriodicThreadImplTimerfd.cpp
@@ -27,6 +27,7 @@
 #include "PeriodicThreadImplTimerfd.h"
 #include "Logging.h"
 
+#include <errno.h>
 #include <sys/timerfd.h>
 
 namespace icl_core {
@@ -96,8 +97,12 @@ void PeriodicThreadImplTimerfd::waitPeriod()
   int ret;
 
   /* Wait for the next timer event. If we have missed any the
-     number is written to "missed" */
-  ret = read(m_info->timer_fd, &missed, sizeof(missed));
+     number is written to "missed". A signal must not end the wait. */
+  do
+  {
+    ret = read(m_info->timer_fd, &missed, sizeof(missed));
+  }
+  while (ret == -1 && errno == EINTR);
   if (ret == -1)
   {
     perror ("read timer");
-- 
2.43.0


From 8d96a849c15c3032d5201d42cbb6b98a3ea574a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:31 +0000
Subject: [PATCH 42/90] fix: setting the global log level includes the default
 output

---
 src/icl_core/src/icl_core_logging/LoggingManager.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/icl_core/src/icl_core_logging/LoggingManager.cpp b/src/icl_core/src/icl_core_logging/LoggingManager.cpp
index c267252..3f73cce 100644
--- a/src/icl_core/src/icl_core_logging/LoggingManager.cpp
+++ b/src/icl_core/src/icl_core_logging/LoggingManager.cpp
@@ -295,6 +295,11 @@ void LoggingManager::setLogLevel(icl_core::logging::LogLevel log_level)
     lsm_it->second->m_initial_level = log_level;
   }
 
+  if (m_default_log_output != NULL)
+  {
+    m_default_log_output->setLogLevel(log_level);
+  }
+
   for (LogOutputStreamMap::iterator los_it = m_log_output_streams.begin();
        los_it != m_log_output_streams.end(); ++los_it)
   {
-- 
2.43.0


From 8bd99f1132dc6dbca838a5625f4ac48d631ad6b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:31 +0000
Subject: [PATCH 43/90] fix: log the microseconds of a TimeSpan, not its
 nanoseconds, with unit us

---
 src/icl_core/src/icl_core_logging/Logging.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/icl_core/src/icl_core_logging/Logging.cpp b/src/icl_core/src/icl_core_logging/Logging.cpp
index 35ccdd7..240d302 100644
--- a/src/icl_core/src/icl_core_logging/Logging.cpp
+++ b/src/icl_core/src/icl_core_logging/Logging.cpp
@@ -83,7 +83,7 @@ ThreadStream& operator << (ThreadStream& stream, const icl_core::TimeSpan& time_
   }
   else if (calc_nsec / 1000 * 1000 == calc_nsec)
   {
-    stream << calc_nsec << "us";
+    stream << calc_nsec / 1000 << "us";
   }
   else
   {
-- 
2.43.0


From acb0ea498afdb448fabbb0bc7183152b4568f78e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:31 +0000
Subject: [PATCH 44/90] fix: log messages start with an empty file and object
 name

---
 src/icl_core/src/icl_core_logging/ThreadStream.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/icl_core/src/icl_core_logging/ThreadStream.cpp b/src/icl_core/src/icl_core_logging/ThreadStream.cpp
index 80ef7f0..38935df 100644
--- a/src/icl_core/src/icl_core_logging/ThreadStream.cpp
+++ b/src/icl_core/src/icl_core_logging/ThreadStream.cpp
@@ -153,7 +153,9 @@ ThreadStream::ThreadStream(LogStream *parent)
     m_line(0),
     m_write_index(0)
 {
+  memset(m_filename, 0, cDEFAULT_LOG_SIZE + 1);
   memset(m_classname, 0, cDEFAULT_LOG_SIZE + 1);
+  memset(m_objectname, 0, cDEFAULT_LOG_SIZE + 1);
   memset(m_function, 0, cDEFAULT_LOG_SIZE + 1);
   memset(m_data, 0, cDEFAULT_LOG_SIZE + 1);
 }
-- 
2.43.0


From fcd60f331d5c2878bd337246d1978a54d22c067d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:31 +0000
Subject: [PATCH 45/90] fix: terminate overlong names and texts of log messages

---
 .../src/icl_core_logging/LogOutputStream.cpp  | 24 ++++++++++++++-----
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/icl_core/src/icl_core_logging/LogOutputStream.cpp b/src/icl_core/src/icl_core_logging/LogOutputStream.cpp
index ddd5366..51a61f7 100644
--- a/src/icl_core/src/icl_core_logging/LogOutputStream.cpp
+++ b/src/icl_core/src/icl_core_logging/LogOutputStream.cpp
@@ -40,6 +40,18 @@
 namespace icl_core {
 namespace logging {
 
+namespace {
+
+//! Copies \a source, cut to what fits into the terminated array \a dest.
+template <size_t size>
+void copyText(char (&dest)[size], const char *source)
+{
+  std::strncpy(dest, source, size - 1);
+  dest[size - 1] = '\0';
+}
+
+}
+
 const icl_core::String LogOutputStream::m_default_log_format = "<~T.~3M> ~S(~L)~ C~(O~::D: ~E";
 const icl_core::ThreadPriority LogOutputStream::m_default_worker_thread_priority = 5;
 
@@ -669,12 +681,12 @@ LogOutputStream::LogMessage::LogMessage(const icl_core::TimeStamp& timestamp,
     log_level(log_level),
     line(line)
 {
-  std::strncpy(LogMessage::log_stream, log_stream, cMAX_IDENTIFIER_LENGTH+1);
-  std::strncpy(LogMessage::filename, filename, cMAX_DESCRIPTION_LENGTH+1);
-  std::strncpy(LogMessage::class_name, class_name, cMAX_IDENTIFIER_LENGTH+1);
-  std::strncpy(LogMessage::object_name, object_name, cMAX_DESCRIPTION_LENGTH+1);
-  std::strncpy(LogMessage::function_name, function_name, cMAX_IDENTIFIER_LENGTH+1);
-  std::strncpy(LogMessage::message_text, message_text, cDEFAULT_LOG_SIZE+1);
+  copyText(LogMessage::log_stream, log_stream);
+  copyText(LogMessage::filename, filename);
+  copyText(LogMessage::class_name, class_name);
+  copyText(LogMessage::object_name, object_name);
+  copyText(LogMessage::function_name, function_name);
+  copyText(LogMessage::message_text, message_text);
 }
 
 }
-- 
2.43.0


From 5eb496b18b31a7dd4deb879a0f9753a29f090c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:31 +0000
Subject: [PATCH 46/90] fix: do not read behind the buffer when logging large
 floating point values

---
 src/icl_core/src/icl_core_logging/ThreadStream.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/icl_core/src/icl_core_logging/ThreadStream.cpp b/src/icl_core/src/icl_core_logging/ThreadStream.cpp
index 38935df..cd00e8a 100644
--- a/src/icl_core/src/icl_core_logging/ThreadStream.cpp
+++ b/src/icl_core/src/icl_core_logging/ThreadStream.cpp
@@ -269,8 +269,9 @@ ThreadStream& operator << (ThreadStream& stream, const std::string& text)
 
 ThreadStream& operator << (ThreadStream& stream, double value)
 {
-  char local_buffer[100];
-  size_t length = os::snprintf(local_buffer, 100, "%f", value);
+  // Large enough for all digits of the largest values.
+  char local_buffer[400];
+  size_t length = os::snprintf(local_buffer, sizeof(local_buffer), "%f", value);
   stream.write(local_buffer, length);
   return stream;
 }
-- 
2.43.0


From 52e760f96d81bb9ad94ea068cad3c2a75a5737a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:31 +0000
Subject: [PATCH 47/90] fix: log formats may contain texts of any length

---
 .../src/icl_core_logging/LogOutputStream.cpp  | 23 ++++++++-----------
 .../src/icl_core_logging/LogOutputStream.h    |  9 +++-----
 2 files changed, 13 insertions(+), 19 deletions(-)

diff --git a/src/icl_core/src/icl_core_logging/LogOutputStream.cpp b/src/icl_core/src/icl_core_logging/LogOutputStream.cpp
index 51a61f7..ac8a9ff 100644
--- a/src/icl_core/src/icl_core_logging/LogOutputStream.cpp
+++ b/src/icl_core/src/icl_core_logging/LogOutputStream.cpp
@@ -419,13 +419,11 @@ void LogOutputStream::parseLogFormat(const char *format)
     }
 
     // Read optional prefix text.
-    char *prefix_ptr = new_entry.text;
     while (format[0] != 0 && format[0] != 'C' && format[0] != 'O' && format[0] != 'D'
            && format[0] != 'E' && format[0] != 'F' && format[0] != 'G' && format[0] != 'L'
            && format[0] != 'S' && format[0] != 'T' && format[0] != 'M')
     {
-      *prefix_ptr = format[0];
-      ++prefix_ptr;
+      new_entry.text += format[0];
       ++format;
     }
 
@@ -437,17 +435,18 @@ void LogOutputStream::parseLogFormat(const char *format)
     else if (format[0] == 'O')
     {
       new_entry.type = LogFormatEntry::eT_OBJECTNAME;
-      if (new_entry.text[0] == '(')
+      const char parenthesis = new_entry.text.empty() ? 0 : new_entry.text[0];
+      if (parenthesis == '(')
       {
-        std::strncpy(new_entry.suffix, ")", 100);
+        new_entry.suffix = ")";
       }
-      else if (new_entry.text[0] == '[')
+      else if (parenthesis == '[')
       {
-        std::strncpy(new_entry.suffix, "]", 100);
+        new_entry.suffix = "]";
       }
-      else if (new_entry.text[0] == '{')
+      else if (parenthesis == '{')
       {
-        std::strncpy(new_entry.suffix, "}", 100);
+        new_entry.suffix = "}";
       }
     }
     else if (format[0] == 'D')
@@ -492,15 +491,13 @@ void LogOutputStream::parseLogFormat(const char *format)
   }
   else
   {
-    char *text_ptr = new_entry.text;
     while (format[0] != '~' && format[0] != 0)
     {
-      *text_ptr = format[0];
-      ++text_ptr;
+      new_entry.text += format[0];
       ++format;
     }
 
-    if (new_entry.text[0] != 0)
+    if (!new_entry.text.empty())
     {
       m_new_log_format.push_back(new_entry);
     }
diff --git a/src/icl_core/src/icl_core_logging/LogOutputStream.h b/src/icl_core/src/icl_core_logging/LogOutputStream.h
index 491154c..cd421ec 100644
--- a/src/icl_core/src/icl_core_logging/LogOutputStream.h
+++ b/src/icl_core/src/icl_core_logging/LogOutputStream.h
@@ -326,15 +326,12 @@ private:
 
     LogFormatEntry()
       : type(eT_TEXT), width(0)
-    {
-      icl_core::os::memset(text, 0, 100);
-      icl_core::os::memset(suffix, 0, 100);
-    }
+    { }
 
     EntryType type;
     size_t width;
-    char text[100];
-    char suffix[100];
+    icl_core::String text;
+    icl_core::String suffix;
   };
 
   /*! This virtual function is called from the worker thread just
-- 
2.43.0


From e645aee79c190b47bd235c64deb68c7f510c39c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:31 +0000
Subject: [PATCH 48/90] fix: do not read behind a log format that ends in an
 unfinished field

---
 src/icl_core/src/icl_core_logging/LogOutputStream.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/icl_core/src/icl_core_logging/LogOutputStream.cpp b/src/icl_core/src/icl_core_logging/LogOutputStream.cpp
index ac8a9ff..fc1a010 100644
--- a/src/icl_core/src/icl_core_logging/LogOutputStream.cpp
+++ b/src/icl_core/src/icl_core_logging/LogOutputStream.cpp
@@ -485,9 +485,8 @@ void LogOutputStream::parseLogFormat(const char *format)
     if (format[0] != 0)
     {
       m_new_log_format.push_back(new_entry);
+      ++format;
     }
-
-    ++format;
   }
   else
   {
-- 
2.43.0


From aa5626de143c4f19f9158a665beebd48d0873890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:31 +0000
Subject: [PATCH 49/90] fix: reset the origin of a log message after it has
 been written, as documented

---
 src/icl_core/src/icl_core_logging/ThreadStream.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/icl_core/src/icl_core_logging/ThreadStream.cpp b/src/icl_core/src/icl_core_logging/ThreadStream.cpp
index cd00e8a..a794d9c 100644
--- a/src/icl_core/src/icl_core_logging/ThreadStream.cpp
+++ b/src/icl_core/src/icl_core_logging/ThreadStream.cpp
@@ -135,6 +135,13 @@ void ThreadStream::flush()
                     m_classname, m_objectname, m_function, m_data);
     }
 
+    // The message is complete.
+    m_filename[0] = '\0';
+    m_line = 0;
+    m_classname[0] = '\0';
+    m_objectname[0] = '\0';
+    m_function[0] = '\0';
+
     m_parent->releaseThreadStream(this);
 
     m_parent->m_mutex.post();
-- 
2.43.0


From 65e79cc5cfba56ed1586915f3b209a4984779ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:42 +0000
Subject: [PATCH 50/90] fix: do not touch a log thread stream after it has been
 released

---
 src/icl_core/src/icl_core_logging/ThreadStream.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/icl_core/src/icl_core_logging/ThreadStream.cpp b/src/icl_core/src/icl_core_logging/ThreadStream.cpp
index a794d9c..a4c2968 100644
--- a/src/icl_core/src/icl_core_logging/ThreadStream.cpp
+++ b/src/icl_core/src/icl_core_logging/ThreadStream.cpp
@@ -141,7 +141,9 @@ void ThreadStream::flush()
     m_classname[0] = '\0';
     m_objectname[0] = '\0';
     m_function[0] = '\0';
+    m_write_index = 0;
 
+    // From here on the thread stream may be used by another thread.
     m_parent->releaseThreadStream(this);
 
     m_parent->m_mutex.post();
@@ -149,8 +151,8 @@ void ThreadStream::flush()
   else
   {
     PRINTF("ThreadStream(%s)::Flush: mutex lock failed\n", m_parent->nameCStr());
+    m_write_index = 0;
   }
-  m_write_index = 0;
 }
 
 ThreadStream::ThreadStream(LogStream *parent)
-- 
2.43.0


From fbfb07137e47512090a5a870dd07d8fa00477dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:47 +0000
Subject: [PATCH 51/90] fix: look at the message queue of a log output only
 while holding its mutex

---
 .../src/icl_core_logging/LogOutputStream.cpp  | 45 ++++++++-----------
 1 file changed, 19 insertions(+), 26 deletions(-)

diff --git a/src/icl_core/src/icl_core_logging/LogOutputStream.cpp b/src/icl_core/src/icl_core_logging/LogOutputStream.cpp
index fc1a010..d8c40eb 100644
--- a/src/icl_core/src/icl_core_logging/LogOutputStream.cpp
+++ b/src/icl_core/src/icl_core_logging/LogOutputStream.cpp
@@ -576,38 +576,31 @@ void LogOutputStream::WorkerThread::run()
   {
     if (m_fill_count->wait())
     {
-#ifdef ICL_CORE_LOG_OUTPUT_STREAM_USE_FIXED_QUEUE
-      if (!isMessageQueueEmpty())
-#else
-      if (!m_message_queue.empty())
-#endif
+      if (m_mutex->wait())
       {
-        if (m_mutex->wait())
-        {
-          LogMessage log_message;
-          bool push = false;
+        LogMessage log_message;
+        bool push = false;
 #ifdef ICL_CORE_LOG_OUTPUT_STREAM_USE_FIXED_QUEUE
-          if (!isMessageQueueEmpty())
-          {
-            log_message = m_message_queue[m_message_queue_read_index];
-            incrementIndex(m_message_queue_read_index);
-            push = true;
-          }
+        if (!isMessageQueueEmpty())
+        {
+          log_message = m_message_queue[m_message_queue_read_index];
+          incrementIndex(m_message_queue_read_index);
+          push = true;
+        }
 #else
-          if (!m_message_queue.empty())
-          {
-            log_message = m_message_queue.front();
-            m_message_queue.pop();
-            push = true;
-          }
+        if (!m_message_queue.empty())
+        {
+          log_message = m_message_queue.front();
+          m_message_queue.pop();
+          push = true;
+        }
 #endif
 
-          m_mutex->post();
+        m_mutex->post();
 
-          if (push)
-          {
-            m_output_stream->pushImpl(log_message);
-          }
+        if (push)
+        {
+          m_output_stream->pushImpl(log_message);
         }
       }
     }
-- 
2.43.0


From d236730c4154cadf173b39d3ea7cbafb59c3627b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:18 +0000
Subject: [PATCH 52/90] fix: do not mix log formats which are changed at the
 same time

---
 src/icl_core/src/icl_core_logging/LogOutputStream.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/icl_core/src/icl_core_logging/LogOutputStream.cpp b/src/icl_core/src/icl_core_logging/LogOutputStream.cpp
index d8c40eb..d80cc6f 100644
--- a/src/icl_core/src/icl_core_logging/LogOutputStream.cpp
+++ b/src/icl_core/src/icl_core_logging/LogOutputStream.cpp
@@ -139,10 +139,10 @@ void LogOutputStream::changeLogFormat(const char *format)
   // Stop processing at the end of the format string.
   if (format[0] != 0)
   {
-    parseLogFormat(format);
-
     if (m_format_mutex.wait())
     {
+      parseLogFormat(format);
+
       m_log_format.clear();
       m_log_format = m_new_log_format;
       m_new_log_format.clear();
-- 
2.43.0


From a9236104724a7d6f9dac7ef9ab94d5064a20bf8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:47 +0000
Subject: [PATCH 53/90] fix: join a logging thread also if it has already
 finished

---
 src/icl_core/src/icl_core_logging/Thread.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/icl_core/src/icl_core_logging/Thread.cpp b/src/icl_core/src/icl_core_logging/Thread.cpp
index 4a26fb4..ba7ab06 100644
--- a/src/icl_core/src/icl_core_logging/Thread.cpp
+++ b/src/icl_core/src/icl_core_logging/Thread.cpp
@@ -83,7 +83,8 @@ Thread::~Thread()
 
 void Thread::join()
 {
-  if (running())
+  // A thread which has already finished still has to be joined.
+  if (!m_joined)
   {
     m_impl->join();
   }
-- 
2.43.0


From ecbcdfd9eaf4ccc6f5fb1caba50d5afffa9a2629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:57 +0000
Subject: [PATCH 54/90] fix: create the log streams anew after the logging
 framework has been shut down

---
 src/icl_core/src/icl_core_logging/Logging.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/icl_core/src/icl_core_logging/Logging.h b/src/icl_core/src/icl_core_logging/Logging.h
index db74997..7af3bb6 100644
--- a/src/icl_core/src/icl_core_logging/Logging.h
+++ b/src/icl_core/src/icl_core_logging/Logging.h
@@ -68,7 +68,7 @@
     name()                                                         \
       : LogStream(#name)                                           \
     { }                                                            \
-    ~name() { }                                                    \
+    ~name() { m_instance = NULL; }                                 \
     static name *m_instance;                                       \
     friend class ::icl_core::logging::LoggingManager;              \
     friend class ::icl_core::logging::hidden::LogStreamRegistrar;  \
@@ -87,7 +87,7 @@
     name()                                                              \
       : LogStream(#name)                                                \
     { }                                                                 \
-    ~name() { }                                                         \
+    ~name() { m_instance = NULL; }                                      \
     static name *m_instance;                                            \
     friend class ::icl_core::logging::LoggingManager;                   \
     friend class ::icl_core::logging::hidden::LogStreamRegistrar;       \
-- 
2.43.0


From 92753b65f0aa0defb67dbb6e218040b682604af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:27 +0000
Subject: [PATCH 55/90] fix: open compressed log files in a mode which zlib
 supports

---
 src/icl_core/src/icl_core_logging/FileLogOutput.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/icl_core/src/icl_core_logging/FileLogOutput.cpp b/src/icl_core/src/icl_core_logging/FileLogOutput.cpp
index c6cbfdb..93d1c6a 100644
--- a/src/icl_core/src/icl_core_logging/FileLogOutput.cpp
+++ b/src/icl_core/src/icl_core_logging/FileLogOutput.cpp
@@ -208,7 +208,7 @@ void FileLogOutput::openLogFile()
 #if defined(_IC_BUILDER_ZLIB_)
   if (m_online_zip)
   {
-    m_zipped_log_file = gzopen(m_filename.c_str(), "a+b");
+    m_zipped_log_file = gzopen(m_filename.c_str(), "ab");
     if (m_zipped_log_file == NULL)
     {
       std::cerr << "Could not open log file " << m_filename << std::endl;
-- 
2.43.0


From b73181d01a3dc0a5eeab2cfd098ec82d69b0ce94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:13 +0000
Subject: [PATCH 56/90] fix: do not fail on files next to the log file which
 can not be examined

---
 .../src/icl_core_logging/FileLogOutput.cpp     | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/icl_core/src/icl_core_logging/FileLogOutput.cpp b/src/icl_core/src/icl_core_logging/FileLogOutput.cpp
index 93d1c6a..edf7724 100644
--- a/src/icl_core/src/icl_core_logging/FileLogOutput.cpp
+++ b/src/icl_core/src/icl_core_logging/FileLogOutput.cpp
@@ -276,17 +276,21 @@ void FileLogOutput::rotateLogFile()
           icl_core::TimeStamp delete_older_than(24*3600*(current_day - m_delete_older_than_days));
           for (boost::filesystem::directory_iterator it(log_file_path), end; it != end; ++it)
           {
-            // If the found file starts with the name of the log file the check its last write time.
-            if (!is_directory(*it)
-                && icl_core::TimeStamp(boost::filesystem::last_write_time(*it)) < delete_older_than
 #if !defined(BOOST_FILESYSTEM_VERSION) || BOOST_FILESYSTEM_VERSION == 2
-                && it->leaf().find(log_file_name) == 0
+            std::string found_file_name = it->leaf();
 #else
-                && it->path().filename().string().find(log_file_name) == 0
+            std::string found_file_name = it->path().filename().string();
 #endif
-                )
+            // If the found file starts with the name of the log file then check its last write
+            // time. Files which can not be examined or removed are left alone.
+            if (found_file_name.find(log_file_name) == 0 && !is_directory(*it))
             {
-              boost::filesystem::remove(*it);
+              boost::system::error_code error;
+              std::time_t last_write_time = boost::filesystem::last_write_time(*it, error);
+              if (!error && icl_core::TimeStamp(last_write_time) < delete_older_than)
+              {
+                boost::filesystem::remove(*it, error);
+              }
             }
           }
         }
-- 
2.43.0


From 1945eef187e7a09c1b1b8eaf9a0c4f697096c153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:53 +0000
Subject: [PATCH 57/90] fix: delete old log files also if the log file is given
 without a directory

---
 src/icl_core/src/icl_core_logging/FileLogOutput.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/icl_core/src/icl_core_logging/FileLogOutput.cpp b/src/icl_core/src/icl_core_logging/FileLogOutput.cpp
index edf7724..3cc967c 100644
--- a/src/icl_core/src/icl_core_logging/FileLogOutput.cpp
+++ b/src/icl_core/src/icl_core_logging/FileLogOutput.cpp
@@ -271,6 +271,10 @@ void FileLogOutput::rotateLogFile()
         boost::filesystem::path log_file_path = boost::filesystem::path(m_filename).parent_path();
         std::string log_file_name = boost::filesystem::path(m_filename).filename().string();
 #endif
+        if (log_file_path.empty())
+        {
+          log_file_path = ".";
+        }
         if (boost::filesystem::exists(log_file_path) && boost::filesystem::is_directory(log_file_path))
         {
           icl_core::TimeStamp delete_older_than(24*3600*(current_day - m_delete_older_than_days));
-- 
2.43.0


From 1a01f6546c16c4f5af72e2f8d21d5e97656430bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:39 +0000
Subject: [PATCH 58/90] fix: do not open a compressed log file twice

---
 src/icl_core/src/icl_core_logging/FileLogOutput.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/icl_core/src/icl_core_logging/FileLogOutput.cpp b/src/icl_core/src/icl_core_logging/FileLogOutput.cpp
index 3cc967c..62a0cd9 100644
--- a/src/icl_core/src/icl_core_logging/FileLogOutput.cpp
+++ b/src/icl_core/src/icl_core_logging/FileLogOutput.cpp
@@ -205,6 +205,11 @@ void FileLogOutput::closeLogFile()
 
 void FileLogOutput::openLogFile()
 {
+  if (isOpen())
+  {
+    return;
+  }
+
 #if defined(_IC_BUILDER_ZLIB_)
   if (m_online_zip)
   {
-- 
2.43.0


From 1b6ab2b14902bb35dedfc96edb796e54e477b5f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:22 +0000
Subject: [PATCH 59/90] fix: keep the log file if it could not be archived

---
 src/icl_core/src/icl_core_logging/FileLogOutput.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/icl_core/src/icl_core_logging/FileLogOutput.cpp b/src/icl_core/src/icl_core_logging/FileLogOutput.cpp
index 62a0cd9..a66a472 100644
--- a/src/icl_core/src/icl_core_logging/FileLogOutput.cpp
+++ b/src/icl_core/src/icl_core_logging/FileLogOutput.cpp
@@ -257,8 +257,11 @@ void FileLogOutput::rotateLogFile()
 #ifdef _IC_BUILDER_ZLIB_
       if (!m_online_zip)
       {
-        icl_core::os::zipFile(m_filename.c_str(), time_str);
-        icl_core::os::unlink(m_filename.c_str());
+        // Keep the log file if it could not be archived.
+        if (icl_core::os::zipFile(m_filename.c_str(), time_str))
+        {
+          icl_core::os::unlink(m_filename.c_str());
+        }
       }
       else
 #endif
-- 
2.43.0


From 8c5ea4fd0271e03303ac1daa6fa94c600e203e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:31 +0000
Subject: [PATCH 60/90] fix: do not delete the current log file together with
 the old ones

---
 src/icl_core/src/icl_core_logging/FileLogOutput.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/icl_core/src/icl_core_logging/FileLogOutput.cpp b/src/icl_core/src/icl_core_logging/FileLogOutput.cpp
index a66a472..7d1f9b5 100644
--- a/src/icl_core/src/icl_core_logging/FileLogOutput.cpp
+++ b/src/icl_core/src/icl_core_logging/FileLogOutput.cpp
@@ -294,8 +294,10 @@ void FileLogOutput::rotateLogFile()
             std::string found_file_name = it->path().filename().string();
 #endif
             // If the found file starts with the name of the log file then check its last write
-            // time. Files which can not be examined or removed are left alone.
-            if (found_file_name.find(log_file_name) == 0 && !is_directory(*it))
+            // time. Files which can not be examined or removed are left alone, and so is the log
+            // file itself.
+            if (found_file_name.find(log_file_name) == 0 && found_file_name != log_file_name
+                && !is_directory(*it))
             {
               boost::system::error_code error;
               std::time_t last_write_time = boost::filesystem::last_write_time(*it, error);
-- 
2.43.0


From cccc37f2b473ad75093a9e72285af6df9a8f9120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:44 +0000
Subject: [PATCH 61/90] fix: escape quotes in UDP log records as the logging
 server expects it

---
 src/icl_core/src/icl_core_logging/UdpLogOutput.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/icl_core/src/icl_core_logging/UdpLogOutput.cpp b/src/icl_core/src/icl_core_logging/UdpLogOutput.cpp
index 67f3675..3468e18 100644
--- a/src/icl_core/src/icl_core_logging/UdpLogOutput.cpp
+++ b/src/icl_core/src/icl_core_logging/UdpLogOutput.cpp
@@ -122,9 +122,8 @@ void UdpLogOutput::pushImpl(const LogMessage& log_message)
 
 icl_core::String UdpLogOutput::escape(icl_core::String str) const
 {
-  // TODO: Which characters have to be escaped to ensure that a
-  // correct SQL statement is created?
-  str = boost::regex_replace(str, boost::regex("'"), "\\'");
+  // In an SQL string a quote is written as two quotes, nothing else has to be escaped.
+  str = boost::regex_replace(str, boost::regex("'"), "''");
   //str = boost::regex_replace(str, boost::regex("\\n"), "\\\\n");
   return str;
 }
-- 
2.43.0


From f5dabaeb8fb88c19263516c19f478ac6bbd29fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:18 +0000
Subject: [PATCH 62/90] fix: escape all texts of UDP log records

---
 src/icl_core/src/icl_core_logging/UdpLogOutput.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/icl_core/src/icl_core_logging/UdpLogOutput.cpp b/src/icl_core/src/icl_core_logging/UdpLogOutput.cpp
index 3468e18..79c7b8e 100644
--- a/src/icl_core/src/icl_core_logging/UdpLogOutput.cpp
+++ b/src/icl_core/src/icl_core_logging/UdpLogOutput.cpp
@@ -102,14 +102,14 @@ void UdpLogOutput::pushImpl(const LogMessage& log_message)
   if (m_socket >= 0)
   {
     std::stringstream ss;
-    ss << "'" << m_system_name << "',"
+    ss << "'" << escape(m_system_name) << "',"
        << "'" << log_message.timestamp.formatIso8601() << "'," << log_message.timestamp.tsNSec() << ","
        << "'" << logLevelDescription(log_message.log_level) << "',"
-       << "'" << log_message.log_stream << "',"
-       << "'" << log_message.filename << "'," << log_message.line << ","
-       << "'" << log_message.class_name << "',"
+       << "'" << escape(log_message.log_stream) << "',"
+       << "'" << escape(log_message.filename) << "'," << log_message.line << ","
+       << "'" << escape(log_message.class_name) << "',"
        << "'" << escape(log_message.object_name) << "',"
-       << "'" << log_message.function_name << "',"
+       << "'" << escape(log_message.function_name) << "',"
        << "'" << escape(log_message.message_text) << "'";
     std::string str = ss.str();
     int res = write(m_socket, str.c_str(), str.length());
-- 
2.43.0


From 1a141447c0588ddcc0eb99a23de4d25ad4611d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:15 +0000
Subject: [PATCH 63/90] fix: make the memory barriers of the singletons order
 memory accesses

The barrier only kept the compiler from reordering, so that a thread could
see the pointer to the instance before the contents of the instance.  Use
a full barrier, as is done for Windows.
---
 src/icl_core/src/icl_core_logging/SingletonThreadingModels.h | 2 +-
 src/icl_core/src/icl_core_thread/SingletonThreadingModels.h  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/icl_core/src/icl_core_logging/SingletonThreadingModels.h b/src/icl_core/src/icl_core_logging/SingletonThreadingModels.h
index 9f76009..21ef8df 100644
--- a/src/icl_core/src/icl_core_logging/SingletonThreadingModels.h
+++ b/src/icl_core/src/icl_core_logging/SingletonThreadingModels.h
@@ -47,7 +47,7 @@ public:
 #if defined(_SYSTEM_WIN32_)
     ::MemoryBarrier();
 #elif defined(__GNUC__)
-    __asm__ __volatile__ ("" ::: "memory");
+    __sync_synchronize();
 #else
 #error "No memory barrier implementation is available for your system."
 #endif
diff --git a/src/icl_core/src/icl_core_thread/SingletonThreadingModels.h b/src/icl_core/src/icl_core_thread/SingletonThreadingModels.h
index 77f53ee..77ecaa0 100644
--- a/src/icl_core/src/icl_core_thread/SingletonThreadingModels.h
+++ b/src/icl_core/src/icl_core_thread/SingletonThreadingModels.h
@@ -47,7 +47,7 @@ public:
 #if defined(_SYSTEM_WIN32_)
     ::MemoryBarrier();
 #elif defined(__GNUC__)
-    __asm__ __volatile__ ("" ::: "memory");
+    __sync_synchronize();
 #else
 # error "No memory barrier implementation is available for your system."
 #endif
-- 
2.43.0


From 647e6fb804826658e73f3ee0ccc3863a7545f094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:33 +0000
Subject: [PATCH 64/90] fix: construct singletons created using malloc

SCPCreateUsingMalloc returned uninitialised memory.
---
 .../src/icl_core/SingletonCreationPolicies.h    | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/icl_core/src/icl_core/SingletonCreationPolicies.h b/src/icl_core/src/icl_core/SingletonCreationPolicies.h
index 1345e2d..41cd52b 100644
--- a/src/icl_core/src/icl_core/SingletonCreationPolicies.h
+++ b/src/icl_core/src/icl_core/SingletonCreationPolicies.h
@@ -31,6 +31,7 @@
 #define ICL_CORE_SINGLETON_CREATION_POLICIES_H_INCLUDED
 
 #include <stdlib.h>
+#include <new>
 
 namespace icl_core {
 
@@ -76,11 +77,25 @@ class SCPCreateUsingMalloc
 public:
   static T *create()
   {
-    return static_cast<T *>(malloc(sizeof(T)));
+    void *memory = malloc(sizeof(T));
+    if (memory == NULL)
+    {
+      throw std::bad_alloc();
+    }
+    try
+    {
+      return new (memory) T;
+    }
+    catch (...)
+    {
+      free(memory);
+      throw;
+    }
   }
 
   static void destroy(T *object)
   {
+    object->~T();
     free(object);
   }
 };
-- 
2.43.0


From de4c58945d0c2f24ba0b0201fd32c1c85ff0e8a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:43 +0000
Subject: [PATCH 65/90] fix: do not register unknown plugins when they are
 asked for

plugin() and createPluginInstance() inserted an entry for every identifier
they were called with, which was then listed as an available plugin and
kept the destructor of the plugin manager from ever returning.
---
 src/icl_core/src/icl_core_plugin/PluginManager.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/icl_core/src/icl_core_plugin/PluginManager.h b/src/icl_core/src/icl_core_plugin/PluginManager.h
index 1e4c368..e0b6909 100644
--- a/src/icl_core/src/icl_core_plugin/PluginManager.h
+++ b/src/icl_core/src/icl_core_plugin/PluginManager.h
@@ -206,7 +206,8 @@ public:
       return m_static_plugins[identifier];
     }
 
-    return m_loaded_plugins[identifier];
+    typename std::map<std::string, T*>::const_iterator iter = m_loaded_plugins.find(identifier);
+    return iter != m_loaded_plugins.end() ? iter->second : NULL;
   }
 
   /*! Create a new plugin instance.
@@ -224,7 +225,8 @@ public:
       loadPlugins();
     }
 
-    PluginHandle plugin_handle = m_plugin_handles[identifier];
+    typename std::map<std::string, PluginHandle>::const_iterator iter = m_plugin_handles.find(identifier);
+    PluginHandle plugin_handle = iter != m_plugin_handles.end() ? iter->second : NULL;
     return loadPluginInstance(plugin_handle, identifier);
   }
 
-- 
2.43.0


From 93ca50fac2db77ccaf735e964aaa74f13db4a472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:43 +0000
Subject: [PATCH 66/90] fix: do not list plugins which could not be
 instantiated

---
 src/icl_core/src/icl_core_plugin/PluginManager.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/icl_core/src/icl_core_plugin/PluginManager.h b/src/icl_core/src/icl_core_plugin/PluginManager.h
index e0b6909..86df6ff 100644
--- a/src/icl_core/src/icl_core_plugin/PluginManager.h
+++ b/src/icl_core/src/icl_core_plugin/PluginManager.h
@@ -509,7 +509,11 @@ protected:
     {
       if (m_loaded_plugins.find(iter->first) == m_loaded_plugins.end())
       {
-        m_loaded_plugins[iter->first] = createPluginInstance(iter->first);
+        T* plugin_instance = createPluginInstance(iter->first);
+        if (plugin_instance)
+        {
+          m_loaded_plugins[iter->first] = plugin_instance;
+        }
       }
     }
 
-- 
2.43.0


From aa0355711483354cbf2908272c64b32099b342f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:43 +0000
Subject: [PATCH 67/90] fix: do not look for plugin functions in the program if
 a plugin could not be loaded

dlsym() with a NULL handle searches the program and its libraries.  If one
of these exports the plugin functions, any file in the plugin directory was
registered as this plugin.
---
 src/icl_core/src/icl_core_plugin/PluginManager.h | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/icl_core/src/icl_core_plugin/PluginManager.h b/src/icl_core/src/icl_core_plugin/PluginManager.h
index 86df6ff..12eb921 100644
--- a/src/icl_core/src/icl_core_plugin/PluginManager.h
+++ b/src/icl_core/src/icl_core_plugin/PluginManager.h
@@ -437,12 +437,14 @@ protected:
 
     PluginHandle plugin_handle = dlopen(plugin.c_str(), RTLD_LAZY);
 
-    dlerror(); // Clear any previous errors.
-    typename T::identifier* get_identifier
-      = (typename T::identifier*) dlsym(plugin_handle, "identifier");
-
-    typename T::basetype* get_basetype
-      = (typename T::basetype*) dlsym(plugin_handle, "basetype");
+    typename T::identifier* get_identifier = NULL;
+    typename T::basetype* get_basetype = NULL;
+    if (plugin_handle)
+    {
+      dlerror(); // Clear any previous errors.
+      get_identifier = (typename T::identifier*) dlsym(plugin_handle, "identifier");
+      get_basetype = (typename T::basetype*) dlsym(plugin_handle, "basetype");
+    }
 
     const char* dlsym_error = dlerror();
     if (dlsym_error)
-- 
2.43.0


From 9d72a5e01b2194427ea39153cafc0c5d9bca314d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:43 +0000
Subject: [PATCH 68/90] fix: close libraries which are not used as plugins

Libraries without the plugin functions, of another base type or with the
identifier of another plugin were never closed.
---
 src/icl_core/src/icl_core_plugin/PluginManager.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/icl_core/src/icl_core_plugin/PluginManager.h b/src/icl_core/src/icl_core_plugin/PluginManager.h
index 12eb921..b60de44 100644
--- a/src/icl_core/src/icl_core_plugin/PluginManager.h
+++ b/src/icl_core/src/icl_core_plugin/PluginManager.h
@@ -492,11 +492,18 @@ protected:
       }
       else
       {
-        m_plugin_handles[get_identifier()] = plugin_handle;
+        // If there are several plugins with this identifier then the last one is used.
+        std::swap(m_plugin_handles[get_identifier()], plugin_handle);
         LOGGING_DEBUG(Plugin, "Initialized plugin " << get_identifier() << " of basetype "
                       << get_basetype() << icl_core::logging::endl);
       }
     }
+
+    // Close libraries which are not used.
+    if (plugin_handle)
+    {
+      dlclose(plugin_handle);
+    }
   }
 
   /*! Loads an instance for all available plugins.  Manager will take
-- 
2.43.0


From b6d210e2e2bdfb0653d72cce959b5e4f68b26d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:43 +0000
Subject: [PATCH 69/90] fix: release all plugins when the plugin manager is
 destroyed

The destructor closed only the handles of instantiated plugins, and used
the key of a map entry after the entry had been erased.
---
 src/icl_core/src/icl_core_plugin/PluginManager.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/icl_core/src/icl_core_plugin/PluginManager.h b/src/icl_core/src/icl_core_plugin/PluginManager.h
index b60de44..db57ea7 100644
--- a/src/icl_core/src/icl_core_plugin/PluginManager.h
+++ b/src/icl_core/src/icl_core_plugin/PluginManager.h
@@ -62,9 +62,10 @@ class PluginManager: public PluginManagerBase
 public:
   ~PluginManager()
   {
-    while (!m_plugin_handles.empty() && !m_loaded_plugins.empty())
+    while (!m_plugin_handles.empty())
     {
-      closePluginHandle(m_loaded_plugins.begin()->first);
+      const std::string identifier = m_plugin_handles.begin()->first;
+      closePluginHandle(identifier);
     }
 
     static PluginManager<T, plugin_dir>* m_instance;
-- 
2.43.0


From 3c2579639fc4407994a0b81ebb52f1204cda8408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:11 +0000
Subject: [PATCH 70/90] fix: create a new plugin manager after it has been
 destroyed

The destructor reset a variable of its own instead of the instance pointer.
---
 .../src/icl_core_plugin/PluginManager.h       | 26 ++++++++++++-------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/icl_core/src/icl_core_plugin/PluginManager.h b/src/icl_core/src/icl_core_plugin/PluginManager.h
index db57ea7..edd38df 100644
--- a/src/icl_core/src/icl_core_plugin/PluginManager.h
+++ b/src/icl_core/src/icl_core_plugin/PluginManager.h
@@ -68,24 +68,22 @@ public:
       closePluginHandle(identifier);
     }
 
-    static PluginManager<T, plugin_dir>* m_instance;
-    m_instance = 0;
-    (void) m_instance;
+    if (instancePointer() == this)
+    {
+      instancePointer() = 0;
+    }
   }
 
   //! Singleton instance accessor.
   static PluginManager<T, plugin_dir> *instance()
   {
-    //! Singleton instance.
-    static PluginManager<T, plugin_dir> *m_instance = 0;
-
-    if (!m_instance)
+    if (!instancePointer())
     {
-      m_instance = new PluginManager<T, plugin_dir>();
+      instancePointer() = new PluginManager<T, plugin_dir>();
     }
 
-    assert(m_instance);
-    return m_instance;
+    assert(instancePointer());
+    return instancePointer();
   }
 
   //! Initializes the PluginManager.
@@ -681,6 +679,14 @@ protected:
   bool m_initialized;
 
   bool m_lazy_loading;
+
+private:
+  //! Singleton instance.
+  static PluginManager<T, plugin_dir> *&instancePointer()
+  {
+    static PluginManager<T, plugin_dir> *m_instance = 0;
+    return m_instance;
+  }
 };
 
 }
-- 
2.43.0


From 2f09eb5c7a9512d09144337256f2a3bb2f6b0bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:33 +0000
Subject: [PATCH 71/90] fix: ignore plugin paths and files which can not be
 examined

A file, an unreadable directory or a link which can not be resolved in the
plugin path ended the program with an exception.
---
 .../src/icl_core_plugin/PluginManager.h       | 69 +++++++++----------
 1 file changed, 32 insertions(+), 37 deletions(-)

diff --git a/src/icl_core/src/icl_core_plugin/PluginManager.h b/src/icl_core/src/icl_core_plugin/PluginManager.h
index edd38df..fc18e2e 100644
--- a/src/icl_core/src/icl_core_plugin/PluginManager.h
+++ b/src/icl_core/src/icl_core_plugin/PluginManager.h
@@ -368,17 +368,8 @@ protected:
       boost::filesystem::path bpath(path);
       LOGGING_TRACE(Plugin, "Loading plugins from " << path << icl_core::logging::endl);
 
-      bool found = false;
-      try
-      {
-        found = exists(bpath);
-      }
-      catch (const boost::filesystem::filesystem_error &e)
-      {
-        LOGGING_DEBUG(Plugin, "Exception when examining directory " << path
-                      << ": " << e.what() << icl_core::logging::endl);
-        // Ignored
-      }
+      boost::system::error_code error;
+      bool found = boost::filesystem::is_directory(bpath, error);
 
       if (!found)
       {
@@ -386,41 +377,45 @@ protected:
         continue;
       }
 
-      if (!recursive_search)
+      loadHandles(bpath, recursive_search);
+    }
+
+    LOGGING_DEBUG(Plugin, "Initialized " << m_plugin_handles.size() << " plugins."
+                  << icl_core::logging::endl);
+  }
+
+  /*! Load the plugin handles of all files in a directory.  Files and
+   *  directories which can not be examined are ignored.
+   */
+  void loadHandles(const boost::filesystem::path &directory, bool recursive_search)
+  {
+    boost::system::error_code error;
+    boost::filesystem::directory_iterator end_iter;
+    for (boost::filesystem::directory_iterator dir_iter(directory, error);
+         dir_iter != end_iter; dir_iter.increment(error))
+    {
+      boost::system::error_code status_error;
+      boost::filesystem::file_status status = dir_iter->status(status_error);
+      if (boost::filesystem::is_regular_file(status))
       {
-        boost::filesystem::directory_iterator end_iter;
-        for (boost::filesystem::directory_iterator dir_iter(bpath); dir_iter != end_iter; ++dir_iter)
-        {
-          if (boost::filesystem::is_regular_file(dir_iter->status()))
-          {
 #if BOOST_FILESYSTEM_VERSION == 2
-            loadHandle(dir_iter->string());
+        loadHandle(dir_iter->string());
 #else
-            loadHandle(dir_iter->path().string());
+        loadHandle(dir_iter->path().string());
 #endif
-          }
-        }
       }
-      else
+      else if (recursive_search && boost::filesystem::is_directory(status)
+               && !boost::filesystem::is_symlink(dir_iter->symlink_status(status_error)))
       {
-        boost::filesystem::recursive_directory_iterator end_iter;
-        for (boost::filesystem::recursive_directory_iterator dir_iter(bpath);
-             dir_iter != end_iter; ++dir_iter)
-        {
-          if (boost::filesystem::is_regular_file(dir_iter->status()))
-          {
-#if BOOST_FILESYSTEM_VERSION == 2
-            loadHandle(dir_iter->string());
-#else
-            loadHandle(dir_iter->path().string());
-#endif
-          }
-        }
+        loadHandles(dir_iter->path(), recursive_search);
       }
     }
 
-    LOGGING_DEBUG(Plugin, "Initialized " << m_plugin_handles.size() << " plugins."
-                  << icl_core::logging::endl);
+    if (error)
+    {
+      LOGGING_WARNING(Plugin, "Could not read plugin directory " << directory.string()
+                      << ": " << error.message() << icl_core::logging::endl);
+    }
   }
 
   /*! Load the plugin handle.
-- 
2.43.0


From 30570560b51eb15d0d26dbf583fb737f5828735b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:58 +0000
Subject: [PATCH 72/90] fix: define PERF_MON_SUMMARY_ALL_DEBUG and _TRACE
 without parameters in release builds

They could not be compiled there.
---
 .../icl_core_performance_monitor/PerformanceMonitorMacros.h   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/icl_core/src/icl_core_performance_monitor/PerformanceMonitorMacros.h b/src/icl_core/src/icl_core_performance_monitor/PerformanceMonitorMacros.h
index af06918..adbfeea 100644
--- a/src/icl_core/src/icl_core_performance_monitor/PerformanceMonitorMacros.h
+++ b/src/icl_core/src/icl_core_performance_monitor/PerformanceMonitorMacros.h
@@ -148,8 +148,8 @@
     #define PERF_MON_SUMMARY_TRACE(prefix, description) (void)0
     #define PERF_MON_SUMMARY_PREFIX_DEBUG(prefix) (void)0
     #define PERF_MON_SUMMARY_PREFIX_TRACE(prefix) (void)0
-    #define PERF_MON_SUMMARY_ALL_DEBUG(prefix, description) (void)0
-    #define PERF_MON_SUMMARY_ALL_TRACE(prefix, description) (void)0
+    #define PERF_MON_SUMMARY_ALL_DEBUG (void)0
+    #define PERF_MON_SUMMARY_ALL_TRACE (void)0
   #endif
 
 
-- 
2.43.0


From a32bd75353cd6891e88019f849c8a0d930b19129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:52 +0000
Subject: [PATCH 73/90] fix: print the summary of an event which has not been
 measured

The statistics accessed the elements of an empty vector, and asking for an
unknown event added it to the events of its prefix.
---
 .../PerformanceMonitor.cpp                    | 72 ++++++++++++-------
 1 file changed, 45 insertions(+), 27 deletions(-)

diff --git a/src/icl_core/src/icl_core_performance_monitor/PerformanceMonitor.cpp b/src/icl_core/src/icl_core_performance_monitor/PerformanceMonitor.cpp
index b5069db..a13de67 100644
--- a/src/icl_core/src/icl_core_performance_monitor/PerformanceMonitor.cpp
+++ b/src/icl_core/src/icl_core_performance_monitor/PerformanceMonitor.cpp
@@ -39,6 +39,39 @@ string makeName(string prefix, string name)
   return prefix + "::" + name;
 }
 
+//! Calculates the average of all entries with the given name, 0 if there are none.
+static double calculateAverage(const map<string, vector<double> >& data, const string& name)
+{
+  map<string, vector<double> >::const_iterator it = data.find(name);
+  if (it == data.end() || it->second.empty())
+  {
+    return 0;
+  }
+
+  double sum = 0;
+  for (size_t i = 0; i < it->second.size(); ++i)
+  {
+    sum += it->second[i];
+  }
+  return sum / double(it->second.size());
+}
+
+//! Calculates median, minimum and maximum of all entries with the given name, 0 if there are none.
+static void calculateMedian(const map<string, vector<double> >& data, const string& name,
+                            double& median, double& min, double& max)
+{
+  median = min = max = 0;
+  map<string, vector<double> >::const_iterator it = data.find(name);
+  if (it != data.end() && !it->second.empty())
+  {
+    vector<double> tmp = it->second;
+    sort(tmp.begin(), tmp.end());
+    median = tmp[tmp.size() / 2];
+    min = tmp.front();
+    max = tmp.back();
+  }
+}
+
 PerformanceMonitor* PerformanceMonitor::m_instance = NULL;
 
 PerformanceMonitor::PerformanceMonitor()
@@ -244,8 +277,11 @@ void PerformanceMonitor::createStatisticSummary(stringstream& ss, string prefix,
   double median, min, max;
   getMedian(tmp, median, min, max);
 
+  map<string, vector<double> >::const_iterator it = m_data.find(tmp);
+  size_t num_entries = it != m_data.end() ? it->second.size() : 0;
+
   ss << "Summary for " << tmp << "\n" <<
-        "Called " << m_data[tmp].size() << " times\n" <<
+        "Called " << num_entries << " times\n" <<
         name << "_avg: " << getAverage(tmp) << " ms\n" <<
         name << "_median: " << median << " ms\n" <<
         name << "_min: " << min << " ms\n" <<
@@ -259,8 +295,11 @@ void PerformanceMonitor::createStatisticSummaryNonTime(stringstream& ss, string
   double median, min, max;
   getMedianNonTime(tmp, median, min, max);
 
+  map<string, vector<double> >::const_iterator it = m_data_nontime.find(tmp);
+  size_t num_entries = it != m_data_nontime.end() ? it->second.size() : 0;
+
   ss << "Summary for " << tmp << "\n" <<
-        "num entries: " << m_data_nontime[tmp].size() << "\n" <<
+        "num entries: " << num_entries << "\n" <<
         name << "_avg: " << getAverageNonTime(tmp) << "\n" <<
         name << "_median: " << median << "\n" <<
         name << "_min: " << min << "\n" <<
@@ -376,43 +415,22 @@ void PerformanceMonitor::printSummaryFromPrefix(string prefix, icl_core::logging
 
 double PerformanceMonitor::getAverage(string name)
 {
-  double avg=0;
-  vector<double>* tmp = &m_data[name];
-  int n = (int) m_data[name].size();
-  for (int i = 0; i < n; ++i)
-    avg = avg + tmp->at(i);
-  avg = avg / n;
-  return avg;
+  return calculateAverage(m_data, name);
 }
 
 double PerformanceMonitor::getAverageNonTime(string name)
 {
-  double avg=0;
-  vector<double>* tmp = &m_data_nontime[name];
-  int n = (int) m_data_nontime[name].size();
-  for (int i = 0; i < n; ++i)
-    avg = avg + tmp->at(i);
-  avg = avg / n;
-  return avg;
+  return calculateAverage(m_data_nontime, name);
 }
 
 void PerformanceMonitor::getMedian(string name, double& median, double& min, double& max)
 {
-  vector<double> tmp = m_data[name];
-  sort(tmp.begin(), tmp.end());
-  median = tmp[tmp.size() / 2];
-  min = tmp[0];
-  max = tmp[tmp.size() - 1];
+  calculateMedian(m_data, name, median, min, max);
 }
 
 void PerformanceMonitor::getMedianNonTime(string name, double& median, double& min, double& max)
 {
-  vector<double> tmp = m_data_nontime[name];
-  sort(tmp.begin(), tmp.end());
-  if (tmp.size() > 0)
-  median = tmp[tmp.size() / 2];
-  min = tmp[0];
-  max = tmp[tmp.size() - 1];
+  calculateMedian(m_data_nontime, name, median, min, max);
 }
 
 } // namespace timer
-- 
2.43.0


From 2af6d6ef57ad3b42530fc6ab5afe06f2863d2894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:16 +0000
Subject: [PATCH 74/90] fix: keep the events of prefixes containing :: apart

The events of the prefix a::b were not found in the summary of this prefix,
and were mixed up with events named b::* of the prefix a.
---
 .../PerformanceMonitor.cpp                    | 34 ++++++++++++-------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/src/icl_core/src/icl_core_performance_monitor/PerformanceMonitor.cpp b/src/icl_core/src/icl_core_performance_monitor/PerformanceMonitor.cpp
index a13de67..c121d34 100644
--- a/src/icl_core/src/icl_core_performance_monitor/PerformanceMonitor.cpp
+++ b/src/icl_core/src/icl_core_performance_monitor/PerformanceMonitor.cpp
@@ -39,6 +39,14 @@ string makeName(string prefix, string name)
   return prefix + "::" + name;
 }
 
+//! Separates prefix and name in the keys of the event maps.
+static const char cSEPARATOR = '\0';
+
+string makeKey(string prefix, string name)
+{
+  return prefix + cSEPARATOR + name;
+}
+
 //! Calculates the average of all entries with the given name, 0 if there are none.
 static double calculateAverage(const map<string, vector<double> >& data, const string& name)
 {
@@ -186,7 +194,7 @@ void PerformanceMonitor::addStaticData(string name, double data, string prefix)
 {
   if (getInstance()->isEnabled(prefix))
   {
-    string tmp = makeName(prefix, name);
+    string tmp = makeKey(prefix, name);
     getInstance()->m_static_data[tmp] = data;
   }
 }
@@ -211,7 +219,7 @@ void PerformanceMonitor::addEvent(string prefix, string name, double data)
 {
   if (getInstance()->isEnabled(prefix))
   {
-    string tmp = makeName(prefix, name);
+    string tmp = makeKey(prefix, name);
     if (m_data.find(tmp) == m_data.end())
     {
       m_data[tmp] = vector<double>();
@@ -229,7 +237,7 @@ void PerformanceMonitor::addNonTimeEvent(string prefix, string name, double data
 {
   if (getInstance()->isEnabled(prefix))
   {
-    string tmp = makeName(prefix, name);
+    string tmp = makeKey(prefix, name);
     if (m_data_nontime.find(tmp) == m_data_nontime.end())
     {
       m_data_nontime[tmp] = vector<double>();
@@ -273,14 +281,14 @@ void PerformanceMonitor::print(string message, logging::LogLevel level)
 
 void PerformanceMonitor::createStatisticSummary(stringstream& ss, string prefix, string name)
 {
-  string tmp = makeName(prefix, name);
+  string tmp = makeKey(prefix, name);
   double median, min, max;
   getMedian(tmp, median, min, max);
 
   map<string, vector<double> >::const_iterator it = m_data.find(tmp);
   size_t num_entries = it != m_data.end() ? it->second.size() : 0;
 
-  ss << "Summary for " << tmp << "\n" <<
+  ss << "Summary for " << makeName(prefix, name) << "\n" <<
         "Called " << num_entries << " times\n" <<
         name << "_avg: " << getAverage(tmp) << " ms\n" <<
         name << "_median: " << median << " ms\n" <<
@@ -291,14 +299,14 @@ void PerformanceMonitor::createStatisticSummary(stringstream& ss, string prefix,
 
 void PerformanceMonitor::createStatisticSummaryNonTime(stringstream& ss, string prefix, string name)
 {
-  string tmp = makeName(prefix, name);
+  string tmp = makeKey(prefix, name);
   double median, min, max;
   getMedianNonTime(tmp, median, min, max);
 
   map<string, vector<double> >::const_iterator it = m_data_nontime.find(tmp);
   size_t num_entries = it != m_data_nontime.end() ? it->second.size() : 0;
 
-  ss << "Summary for " << tmp << "\n" <<
+  ss << "Summary for " << makeName(prefix, name) << "\n" <<
         "num entries: " << num_entries << "\n" <<
         name << "_avg: " << getAverageNonTime(tmp) << "\n" <<
         name << "_median: " << median << "\n" <<
@@ -361,7 +369,7 @@ void PerformanceMonitor::printSummaryFromPrefix(string prefix, icl_core::logging
   ss << "\n########## Begin of Summary for prefix " << prefix << " ##########\n";
   for (map<string, double>::iterator it = monitor->m_static_data.begin(); it != monitor->m_static_data.end(); it++)
   {
-    size_t prefix_end = it->first.find("::");
+    size_t prefix_end = it->first.find(cSEPARATOR);
     std::string prefix_tmp = it->first.substr(0, prefix_end);
 
     if (prefix == prefix_tmp)
@@ -371,14 +379,14 @@ void PerformanceMonitor::printSummaryFromPrefix(string prefix, icl_core::logging
         ss << "#### Static data: ####\n";
         first = false;
       }
-      ss <<  it->first.substr(prefix_end+2) << ": " << it->second << "\n";
+      ss <<  it->first.substr(prefix_end+1) << ": " << it->second << "\n";
     }
   }
 
   first = true;
   for (map<string, vector<double> >::iterator it = monitor->m_data.begin(); it != monitor->m_data.end(); it++)
   {
-    size_t prefix_end = it->first.find("::");
+    size_t prefix_end = it->first.find(cSEPARATOR);
     std::string prefix_tmp = it->first.substr(0, prefix_end);
 
     if (prefix == prefix_tmp)
@@ -388,7 +396,7 @@ void PerformanceMonitor::printSummaryFromPrefix(string prefix, icl_core::logging
         ss << "#### Time data: ####\n";
         first = false;
       }
-      string name = it->first.substr(prefix_end+2);
+      string name = it->first.substr(prefix_end+1);
       monitor->createStatisticSummary(ss, prefix, name);
     }
   }
@@ -396,7 +404,7 @@ void PerformanceMonitor::printSummaryFromPrefix(string prefix, icl_core::logging
   first = true;
   for (map<string, vector<double> >::iterator it = monitor->m_data_nontime.begin(); it != monitor->m_data_nontime.end(); it++)
   {
-    size_t prefix_end = it->first.find("::");
+    size_t prefix_end = it->first.find(cSEPARATOR);
     std::string prefix_tmp = it->first.substr(0, prefix_end);
 
     if (prefix == prefix_tmp)
@@ -406,7 +414,7 @@ void PerformanceMonitor::printSummaryFromPrefix(string prefix, icl_core::logging
         ss << "#### Non-time data: ####\n";
         first = false;
       }
-      string name = it->first.substr(prefix_end+2);
+      string name = it->first.substr(prefix_end+1);
       monitor->createStatisticSummaryNonTime(ss, prefix, name);
     }
   }
-- 
2.43.0


From dcb07ec52045f4fd37c1da2f96a99ef310b49d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:16 +0000
Subject: [PATCH 75/90] fix: let a disabled performance monitor record nothing

m_enabled was ignored if all prefixes were enabled.
---
 .../src/icl_core_performance_monitor/PerformanceMonitor.cpp     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/icl_core/src/icl_core_performance_monitor/PerformanceMonitor.cpp b/src/icl_core/src/icl_core_performance_monitor/PerformanceMonitor.cpp
index c121d34..6ea154c 100644
--- a/src/icl_core/src/icl_core_performance_monitor/PerformanceMonitor.cpp
+++ b/src/icl_core/src/icl_core_performance_monitor/PerformanceMonitor.cpp
@@ -118,7 +118,7 @@ void PerformanceMonitor::initialize(const uint32_t num_names, const uint32_t num
 
 bool PerformanceMonitor::isEnabled(string prefix)
 {
-  return (m_enabled && m_enabled_prefix.find(prefix) != m_enabled_prefix.end()) || m_all_enabled;
+  return m_enabled && (m_all_enabled || m_enabled_prefix.find(prefix) != m_enabled_prefix.end());
 }
 
 void PerformanceMonitor::start(string timer_name)
-- 
2.43.0


From f5acadd196531697d9f04e07eef43f14b5454735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:39 +0000
Subject: [PATCH 76/90] fix: let printSummaryAll() print all prefixes if all
 prefixes are enabled

It left out prefixes which were only enabled through enableAll().
---
 .../PerformanceMonitor.cpp                    | 26 ++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/icl_core/src/icl_core_performance_monitor/PerformanceMonitor.cpp b/src/icl_core/src/icl_core_performance_monitor/PerformanceMonitor.cpp
index 6ea154c..8e269ee 100644
--- a/src/icl_core/src/icl_core_performance_monitor/PerformanceMonitor.cpp
+++ b/src/icl_core/src/icl_core_performance_monitor/PerformanceMonitor.cpp
@@ -25,6 +25,7 @@
 
 #include <stdlib.h>
 #include <algorithm>
+#include <set>
 #include <sstream>
 
 #include <icl_core/TimeSpan.h>
@@ -47,6 +48,16 @@ string makeKey(string prefix, string name)
   return prefix + cSEPARATOR + name;
 }
 
+//! Inserts the prefixes of all entries into the set.
+template <class T>
+static void insertPrefixes(set<string>& prefixes, const map<string, T>& data)
+{
+  for (typename map<string, T>::const_iterator it = data.begin(); it != data.end(); ++it)
+  {
+    prefixes.insert(it->first.substr(0, it->first.find(cSEPARATOR)));
+  }
+}
+
 //! Calculates the average of all entries with the given name, 0 if there are none.
 static double calculateAverage(const map<string, vector<double> >& data, const string& name)
 {
@@ -354,10 +365,23 @@ void PerformanceMonitor::printSummaryAll(icl_core::logging::LogLevel level)
 {
   PerformanceMonitor* monitor = getInstance();
 
+  set<string> prefixes;
   for (map<string, bool>::iterator it=monitor->m_enabled_prefix.begin();
        it != monitor->m_enabled_prefix.end(); ++it)
   {
-    printSummaryFromPrefix(it->first, level);
+    prefixes.insert(it->first);
+  }
+
+  if (monitor->m_all_enabled)
+  {
+    insertPrefixes(prefixes, monitor->m_static_data);
+    insertPrefixes(prefixes, monitor->m_data);
+    insertPrefixes(prefixes, monitor->m_data_nontime);
+  }
+
+  for (set<string>::iterator it = prefixes.begin(); it != prefixes.end(); ++it)
+  {
+    printSummaryFromPrefix(*it, level);
   }
 }
 
-- 
2.43.0


From 3453915663a6665510dd1106b1a7c9d31ee2aa6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:40 +0000
Subject: [PATCH 77/90] fix: an emulated periodic timer does not wait for a
 clock that is set back while it sleeps

---
 .../PeriodicThreadImplEmulate.cpp             | 20 ++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/icl_core/src/icl_core_thread/PeriodicThreadImplEmulate.cpp b/src/icl_core/src/icl_core_thread/PeriodicThreadImplEmulate.cpp
index dd73048..63f5a1a 100644
--- a/src/icl_core/src/icl_core_thread/PeriodicThreadImplEmulate.cpp
+++ b/src/icl_core/src/icl_core_thread/PeriodicThreadImplEmulate.cpp
@@ -46,22 +46,24 @@ void PeriodicThreadImplEmulate::waitPeriod()
   icl_core::TimeStamp next_execution_time = m_last_execution_time + m_period;
   icl_core::TimeSpan wait_time_left = next_execution_time - now;
 
-  // If time has run backwards then set the wait time exactly to
-  // the period to prevent long waiting times.
-  if (wait_time_left > m_period)
-  {
-    wait_time_left = m_period;
-    next_execution_time = now + m_period;
-  }
-
   icl_core::TimeSpan zero_time_span;
   struct timespec wait_time;
   struct timespec remaining_wait_time;
   while (wait_time_left > zero_time_span)
   {
+    // If time has run backwards then set the wait time exactly to
+    // the period to prevent long waiting times. This may happen while
+    // sleeping, too.
+    if (wait_time_left > m_period)
+    {
+      wait_time_left = m_period;
+      next_execution_time = now + m_period;
+    }
+
     wait_time = wait_time_left.timespec();
     icl_core::os::nanosleep(&wait_time, &remaining_wait_time);
-    wait_time_left = next_execution_time - ::icl_core::TimeStamp::now();
+    now = ::icl_core::TimeStamp::now();
+    wait_time_left = next_execution_time - now;
   }
 
   m_last_execution_time = icl_core::TimeStamp::now();
-- 
2.43.0


From 9bcf653687d073038e597245f21dcbc8c92ff898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:40 +0000
Subject: [PATCH 78/90] fix: expanding an environment variable whose value
 refers to itself ends

---
 .../src/icl_core_config/AttributeTree.cpp     | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/icl_core/src/icl_core_config/AttributeTree.cpp b/src/icl_core/src/icl_core_config/AttributeTree.cpp
index 582b3e8..68dc968 100644
--- a/src/icl_core/src/icl_core_config/AttributeTree.cpp
+++ b/src/icl_core/src/icl_core_config/AttributeTree.cpp
@@ -278,6 +278,10 @@ icl_core::String FilePath::replaceEnvironment(const icl_core::String& _filename)
 
   //DEBUGMSG(DD_SYSTEM, DL_VERBOSE, "FilePath::replaceEnvironment(%s)\n", filename.c_str());
 
+  // The variables whose values contain the current position, each with
+  // the length of the text behind its value.
+  std::vector<std::pair<string, string::size_type> > active;
+
   string::size_type dot_start = filename.find("${");
   while (dot_start != string::npos)
   {
@@ -291,6 +295,21 @@ icl_core::String FilePath::replaceEnvironment(const icl_core::String& _filename)
       return _filename;
     }
     string var_name(filename, dot_start, dot_end - dot_start);
+    string::size_type rest = filename.length() - dot_end - 1;
+    while (!active.empty() && rest < active.back().second)
+    {
+      active.pop_back();
+    }
+    for (size_t i = 0; i < active.size(); ++i)
+    {
+      if (active[i].first == var_name)
+      {
+        printf("tFilePath::replaceEnvironment(%s)>> Failure: The value of '%s' refers to itself\n",
+               (const char*) _filename.c_str(), (const char*) var_name.c_str());
+        return _filename;
+      }
+    }
+    active.push_back(std::make_pair(var_name, rest));
     string temp_filename(filename, 0, dot_start - 2);
     temp_filename += getEnvironment(var_name);
     temp_filename += string(filename, dot_end + 1, string::npos);
-- 
2.43.0


From 8e8589733fb60d9924f5f8900c8af26b1313309e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:45 +0000
Subject: [PATCH 79/90] fix: time stamps without a four-digit year format to an
 empty text instead of an undefined one or a crash

---
 src/icl_core/src/icl_core/TimeStamp.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/icl_core/src/icl_core/TimeStamp.cpp b/src/icl_core/src/icl_core/TimeStamp.cpp
index 07cb1fd..60a7dfa 100644
--- a/src/icl_core/src/icl_core/TimeStamp.cpp
+++ b/src/icl_core/src/icl_core/TimeStamp.cpp
@@ -203,18 +203,22 @@ TimeStamp& TimeStamp::fromNow()
 void TimeStamp::strfTime(char* dest, size_t max_len, const char *format) const
 {
   time_t time = tsSec();
-  struct tm *newtime;
-  newtime = gmtime(&time);
-  strftime(dest, max_len, format, newtime);
+  struct tm *newtime = gmtime(&time);
+  // The text is empty if there is no such date or if it does not fit.
+  if ((newtime == NULL || strftime(dest, max_len, format, newtime) == 0) && max_len > 0)
+  {
+    dest[0] = '\0';
+  }
 }
 
 void TimeStamp::strfLocaltime(char* dest, size_t max_len, const char *format) const
 {
   time_t time = tsSec();
   struct tm *newtime = localtime(&time);
-  if (newtime)
+  // The text is empty if there is no such date or if it does not fit.
+  if ((newtime == NULL || strftime(dest, max_len, format, newtime) == 0) && max_len > 0)
   {
-    strftime(dest, max_len, format, newtime);
+    dest[0] = '\0';
   }
 }
 
-- 
2.43.0


From 55c10b64ebecd256ac2f3e46c050a17cd24a134f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:36 +0000
Subject: [PATCH 80/90] fix: formatting a time stamp does not use the buffer
 that all threads share

---
 src/icl_core/src/icl_core/TimeStamp.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/icl_core/src/icl_core/TimeStamp.cpp b/src/icl_core/src/icl_core/TimeStamp.cpp
index 60a7dfa..58252cb 100644
--- a/src/icl_core/src/icl_core/TimeStamp.cpp
+++ b/src/icl_core/src/icl_core/TimeStamp.cpp
@@ -203,7 +203,12 @@ TimeStamp& TimeStamp::fromNow()
 void TimeStamp::strfTime(char* dest, size_t max_len, const char *format) const
 {
   time_t time = tsSec();
+#ifdef _SYSTEM_POSIX_
+  struct tm buffer;
+  struct tm *newtime = gmtime_r(&time, &buffer);
+#else
   struct tm *newtime = gmtime(&time);
+#endif
   // The text is empty if there is no such date or if it does not fit.
   if ((newtime == NULL || strftime(dest, max_len, format, newtime) == 0) && max_len > 0)
   {
@@ -214,7 +219,12 @@ void TimeStamp::strfTime(char* dest, size_t max_len, const char *format) const
 void TimeStamp::strfLocaltime(char* dest, size_t max_len, const char *format) const
 {
   time_t time = tsSec();
+#ifdef _SYSTEM_POSIX_
+  struct tm buffer;
+  struct tm *newtime = localtime_r(&time, &buffer);
+#else
   struct tm *newtime = localtime(&time);
+#endif
   // The text is empty if there is no such date or if it does not fit.
   if ((newtime == NULL || strftime(dest, max_len, format, newtime) == 0) && max_len > 0)
   {
-- 
2.43.0


From a702a638ea83f4cd68b3775a2f579203f757aca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:37 +0000
Subject: [PATCH 81/90] fix: loading an attribute tree does not fail because
 another thread loads the same file

---
 .../src/icl_core_config/AttributeTree.cpp     | 19 ++++++++++++++++---
 .../src/icl_core_config/AttributeTree.h       |  9 +++++++++
 2 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/src/icl_core/src/icl_core_config/AttributeTree.cpp b/src/icl_core/src/icl_core_config/AttributeTree.cpp
index 68dc968..04871ec 100644
--- a/src/icl_core/src/icl_core_config/AttributeTree.cpp
+++ b/src/icl_core/src/icl_core_config/AttributeTree.cpp
@@ -1260,6 +1260,13 @@ int AttributeTree::save(const char *filename, int change_style_depth, bool unmar
 
 int AttributeTree::load(const char *filename, bool unmark_changes, bool process_include,
                         bool load_comments, bool preserve_order)
+{
+  std::vector<std::string> open_files;
+  return load(filename, unmark_changes, process_include, load_comments, preserve_order, open_files);
+}
+
+int AttributeTree::load(const char *filename, bool unmark_changes, bool process_include,
+                        bool load_comments, bool preserve_order, std::vector<std::string>& open_files)
 {
   if (filename == NULL || strcmp(filename, "") == 0)
   {
@@ -1286,14 +1293,13 @@ int AttributeTree::load(const char *filename, bool unmark_changes, bool process_
   }
 
   // A file that is included by itself would be read forever.
-  static std::vector<std::string> open_files;
   if (std::find(open_files.begin(), open_files.end(), at_file.absoluteName()) != open_files.end())
   {
     printf("tAttributeTree >> File '%s' includes itself\n", at_file.absoluteName().c_str());
     return eFILE_LOAD_ERROR;
   }
   open_files.push_back(at_file.absoluteName());
-  error = get(in, process_include, load_comments, &at_file);
+  error = get(in, process_include, load_comments, &at_file, open_files);
   open_files.pop_back();
   if (error >= 0)
   {
@@ -1318,6 +1324,13 @@ int AttributeTree::load(const char *filename, bool unmark_changes, bool process_
 
 int AttributeTree::get(istream &in, bool process_include, bool load_comments,
                        const class FilePath *file_path)
+{
+  std::vector<std::string> open_files;
+  return get(in, process_include, load_comments, file_path, open_files);
+}
+
+int AttributeTree::get(istream &in, bool process_include, bool load_comments,
+                       const class FilePath *file_path, std::vector<std::string>& open_files)
 {
   string buffer;
   char *attribute, *line;
@@ -1361,7 +1374,7 @@ int AttributeTree::get(istream &in, bool process_include, bool load_comments,
                 absolute_include_filename += include_filename;
                 include_filename = FilePath::normalizePath(absolute_include_filename);
               }
-              if (at->load(include_filename.c_str(), false, process_include, load_comments) != eOK)
+              if (at->load(include_filename.c_str(), false, process_include, load_comments, false, open_files) != eOK)
               {
                 printf("error loading include file %s\n", (const char*)include_filename.c_str());
               }
diff --git a/src/icl_core/src/icl_core_config/AttributeTree.h b/src/icl_core/src/icl_core_config/AttributeTree.h
index 54d32b9..c7754ef 100644
--- a/src/icl_core/src/icl_core_config/AttributeTree.h
+++ b/src/icl_core/src/icl_core_config/AttributeTree.h
@@ -30,6 +30,7 @@
 
 #include <fstream>
 #include <string>
+#include <vector>
 
 #include "icl_core/BaseTypes.h"
 #include "icl_core_config/ImportExport.h"
@@ -966,6 +967,14 @@ private:
   void split(char *&description, char *&sub_description);
   void appendString(char * &dest, const char *src, const char *separator);
 
+  /*! Implement load() and get(). \a open_files are the files that are
+   *  being loaded.
+   */
+  int load(const char *filename, bool unmark_changes, bool process_include,
+           bool load_comments, bool preserve_order, std::vector<std::string>& open_files);
+  int get(std::istream &in, bool process_include, bool load_comments,
+          const FilePath *file_path, std::vector<std::string>& open_files);
+
   // Forbid copying.
   AttributeTree& operator = (const AttributeTree&);
 
-- 
2.43.0


From fa6b40e13a27ef85b4a9c5e6ba0ca68cdb96b7b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:17 +0000
Subject: [PATCH 82/90] fix: unlinking the subtrees of an attribute tree does
 not leak the list of them

---
 src/icl_core/src/icl_core_config/AttributeTree.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/icl_core/src/icl_core_config/AttributeTree.cpp b/src/icl_core/src/icl_core_config/AttributeTree.cpp
index 04871ec..3dacb2b 100644
--- a/src/icl_core/src/icl_core_config/AttributeTree.cpp
+++ b/src/icl_core/src/icl_core_config/AttributeTree.cpp
@@ -523,6 +523,7 @@ void SubTreeList::unlinkParent()
     if (loop->m_sub_tree)
     {
       loop->m_sub_tree->m_parent = 0;
+      loop->m_sub_tree = 0;
     }
     loop = loop->m_next;
   }
@@ -836,7 +837,8 @@ void AttributeTree::unlinkSub()
   {
     // die parent-Zeiger der Unterbäume auf 0 setzen
     m_subtree_list->unlinkParent();
-    // den Unterbaumzeiger auf 0
+    // die Liste freigeben und den Unterbaumzeiger auf 0
+    delete m_subtree_list;
     m_subtree_list = 0;
   }
 }
-- 
2.43.0


From 8c5ac3e2b57e5f656e9764fcc7ae4a2759ed3e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:39 +0000
Subject: [PATCH 83/90] fix: the old names of the limits of a sequence number
 can be linked

---
 src/icl_core/src/icl_core/SequenceNumber.cpp | 30 --------------------
 src/icl_core/src/icl_core/SequenceNumber.h   | 26 +++++++++++++++++
 2 files changed, 26 insertions(+), 30 deletions(-)

diff --git a/src/icl_core/src/icl_core/SequenceNumber.cpp b/src/icl_core/src/icl_core/SequenceNumber.cpp
index 2c93305..449e075 100644
--- a/src/icl_core/src/icl_core/SequenceNumber.cpp
+++ b/src/icl_core/src/icl_core/SequenceNumber.cpp
@@ -28,33 +28,3 @@
 //----------------------------------------------------------------------
 
 #include "SequenceNumber.h"
-
-namespace icl_core {
-
-////////////// DEPRECATED VERSIONS //////////////
-#ifdef _IC_BUILDER_DEPRECATED_STYLE_
-
-/*!
- * Get the maximum sequence number value.
- * \deprecated Obsolete coding style.
- */
-template <typename TBase, TBase max_value, TBase min_value, TBase initial_value>
-TBase SequenceNumber<TBase, max_value, min_value, initial_value>::MaxValue()
-{
-  return max_value;
-}
-
-/*!
- * Get the minimum sequence number value.
- * \deprecated Obsolete coding style.
- */
-template <typename TBase, TBase max_value, TBase min_value, TBase initial_value>
-TBase SequenceNumber<TBase, max_value, min_value, initial_value>::MinValue()
-{
-  return min_value;
-}
-
-#endif
-/////////////////////////////////////////////////
-
-}
diff --git a/src/icl_core/src/icl_core/SequenceNumber.h b/src/icl_core/src/icl_core/SequenceNumber.h
index c78d48e..f646455 100644
--- a/src/icl_core/src/icl_core/SequenceNumber.h
+++ b/src/icl_core/src/icl_core/SequenceNumber.h
@@ -204,6 +204,32 @@ private:
   TBase m_value;
 };
 
+////////////// DEPRECATED VERSIONS //////////////
+#ifdef _IC_BUILDER_DEPRECATED_STYLE_
+
+/*!
+ * Get the maximum sequence number value.
+ * \deprecated Obsolete coding style.
+ */
+template <typename TBase, TBase max_value, TBase min_value, TBase initial_value>
+TBase SequenceNumber<TBase, max_value, min_value, initial_value>::MaxValue()
+{
+  return max_value;
+}
+
+/*!
+ * Get the minimum sequence number value.
+ * \deprecated Obsolete coding style.
+ */
+template <typename TBase, TBase max_value, TBase min_value, TBase initial_value>
+TBase SequenceNumber<TBase, max_value, min_value, initial_value>::MinValue()
+{
+  return min_value;
+}
+
+#endif
+/////////////////////////////////////////////////
+
 }
 
 #endif
-- 
2.43.0


From 19d90deaa019f65b00995c44dafe950984e34bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:39 +0000
Subject: [PATCH 84/90] fix: a configuration value keeps its default value
 instead of a reference to it

---
 src/icl_core/src/icl_core_config/ConfigEnumDefault.h  | 2 +-
 src/icl_core/src/icl_core_config/ConfigValueDefault.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/icl_core/src/icl_core_config/ConfigEnumDefault.h b/src/icl_core/src/icl_core_config/ConfigEnumDefault.h
index 5b38c95..9459b20 100644
--- a/src/icl_core/src/icl_core_config/ConfigEnumDefault.h
+++ b/src/icl_core/src/icl_core_config/ConfigEnumDefault.h
@@ -72,7 +72,7 @@ public:
   }
 
 private:
-  typename icl_core::ConvertToRef<T>::ToConstRef m_default_value;
+  T m_default_value;
 };
 
 }}
diff --git a/src/icl_core/src/icl_core_config/ConfigValueDefault.h b/src/icl_core/src/icl_core_config/ConfigValueDefault.h
index fab3eab..b6be348 100644
--- a/src/icl_core/src/icl_core_config/ConfigValueDefault.h
+++ b/src/icl_core/src/icl_core_config/ConfigValueDefault.h
@@ -70,7 +70,7 @@ public:
   }
 
 private:
-  typename icl_core::ConvertToRef<T>::ToConstRef m_default_value;
+  T m_default_value;
 };
 
 }}
-- 
2.43.0


From aa891d3d70e85e9031dea075d072652adfacc58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:39 +0000
Subject: [PATCH 85/90] fix: the header with the old name of the plugin manager
 base can be included

---
 src/icl_core/src/icl_core_plugin/tPluginManagerBase.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/icl_core/src/icl_core_plugin/tPluginManagerBase.h b/src/icl_core/src/icl_core_plugin/tPluginManagerBase.h
index 3df7b88..e39eb3f 100644
--- a/src/icl_core/src/icl_core_plugin/tPluginManagerBase.h
+++ b/src/icl_core/src/icl_core_plugin/tPluginManagerBase.h
@@ -25,7 +25,7 @@
 #define ICL_CORE_PLUGIN_T_PLUGIN_MANAGER_BASE_H_INCLUDED
 
 #include "icl_core/Deprecate.h"
-#include "icl_core/PluginManagerBase.h"
+#include "icl_core_plugin/PluginManagerBase.h"
 
 namespace icl_core {
 namespace plugin {
-- 
2.43.0


From c580d9786ca2b92dd5e557948008e4df7cf75b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:04:28 +0000
Subject: [PATCH 86/90] fix: relative file names refer to the current directory
 of the process

---
 .../src/icl_core_config/AttributeTree.cpp       | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/icl_core/src/icl_core_config/AttributeTree.cpp b/src/icl_core/src/icl_core_config/AttributeTree.cpp
index 3dacb2b..9d0f86b 100644
--- a/src/icl_core/src/icl_core_config/AttributeTree.cpp
+++ b/src/icl_core/src/icl_core_config/AttributeTree.cpp
@@ -32,6 +32,9 @@
 
 #ifdef _SYSTEM_WIN32_
 #include <direct.h>
+#else
+#include <sys/stat.h>
+#include <unistd.h>
 #endif
 
 #include "icl_core/os_string.h"
@@ -445,11 +448,19 @@ void FilePath::init(const char* filename)
     delete[] buffer;
   }
 #else
-  char* tmp;
-  tmp = getenv("PWD");
-  if (tmp != NULL)
+  // The environment variable is missing or outdated if the directory
+  // was not changed by a shell.
+  struct stat env_dir, current_dir;
+  char* tmp = getenv("PWD");
+  if (tmp != NULL && tmp[0] == DSEP && stat(tmp, &env_dir) == 0 && stat(".", &current_dir) == 0
+      && env_dir.st_dev == current_dir.st_dev && env_dir.st_ino == current_dir.st_ino)
+  {
+    m_pwd = tmp;
+  }
+  else if ((tmp = getcwd(NULL, 0)) != NULL)
   {
     m_pwd = tmp;
+    free(tmp);
   }
   else
   {
-- 
2.43.0


From b275b8dbe0a935d8799be590a8a5f82aa38b0896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:05:13 +0000
Subject: [PATCH 87/90] fix: the current directory of a file path ends with a
 separator as documented

---
 src/icl_core/src/icl_core_config/AttributeTree.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/icl_core/src/icl_core_config/AttributeTree.cpp b/src/icl_core/src/icl_core_config/AttributeTree.cpp
index 9d0f86b..131ad25 100644
--- a/src/icl_core/src/icl_core_config/AttributeTree.cpp
+++ b/src/icl_core/src/icl_core_config/AttributeTree.cpp
@@ -88,7 +88,7 @@ icl_core::String FilePath::absolutePath(const icl_core::String& filename) const
 {
   if (isRelativePath(filename))
   {
-    return normalizePath(currentDir() + DSEP + filename);
+    return normalizePath(currentDir() + filename);
   }
   else
   {
@@ -468,6 +468,10 @@ void FilePath::init(const char* filename)
   }
 #endif
   m_pwd = normalizePath(m_pwd);
+  if (m_pwd.empty() || m_pwd[m_pwd.length() - 1] != DSEP)
+  {
+    m_pwd += DSEP;
+  }
 
   m_file = normalizePath(absolutePath(exchangeSeparators(string(filename))));
 
-- 
2.43.0


From a5b3fea83ddfcd9ef721dc964d1de3b87bc5738b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:58:18 +0000
Subject: [PATCH 88/90] fix: reading a configuration list again does not repeat
 what was read before

---
 src/icl_core/src/icl_core_config/ConfigList.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/icl_core/src/icl_core_config/ConfigList.h b/src/icl_core/src/icl_core_config/ConfigList.h
index 071a457..ae39f84 100644
--- a/src/icl_core/src/icl_core_config/ConfigList.h
+++ b/src/icl_core/src/icl_core_config/ConfigList.h
@@ -70,6 +70,8 @@ public:
   {
     bool result = false;
     bool error = false;
+    m_element_map.clear();
+    m_string_value_map.clear();
     ConfigIterator cIter = ConfigManager::instance().find(
       boost::regex_replace(prefix + m_config_prefix, boost::regex("[^A-Za-z0-9_]"), "\\\\$&") + "\\/(.+?)(\\/(.+))?");
     while(cIter.next())
-- 
2.43.0


From d9bb7f4baa4a2d5554230fc8d47d87982c28a966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:58:18 +0000
Subject: [PATCH 89/90] fix: an attribute tree that could not be written
 completely is not reported as saved

---
 src/icl_core/src/icl_core_config/AttributeTree.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/icl_core/src/icl_core_config/AttributeTree.cpp b/src/icl_core/src/icl_core_config/AttributeTree.cpp
index 131ad25..a4dd94c 100644
--- a/src/icl_core/src/icl_core_config/AttributeTree.cpp
+++ b/src/icl_core/src/icl_core_config/AttributeTree.cpp
@@ -1266,6 +1266,11 @@ int AttributeTree::save(const char *filename, int change_style_depth, bool unmar
     return eFILE_SAVE_ERROR;
   }
   printSubTree(out, change_style_depth, "");
+  out.close();
+  if (!out)
+  {
+    return eFILE_SAVE_ERROR;
+  }
 
   if (unmark_changes)
   {
-- 
2.43.0


From b3e5cbb31326e424f756a1e5de1b3928c5dc34cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:58:18 +0000
Subject: [PATCH 90/90] fix: an attribute tree whose file could not be read is
 not reported as loaded

---
 src/icl_core/src/icl_core_config/AttributeTree.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/icl_core/src/icl_core_config/AttributeTree.cpp b/src/icl_core/src/icl_core_config/AttributeTree.cpp
index a4dd94c..ea4f61b 100644
--- a/src/icl_core/src/icl_core_config/AttributeTree.cpp
+++ b/src/icl_core/src/icl_core_config/AttributeTree.cpp
@@ -1323,6 +1323,11 @@ int AttributeTree::load(const char *filename, bool unmark_changes, bool process_
   open_files.push_back(at_file.absoluteName());
   error = get(in, process_include, load_comments, &at_file, open_files);
   open_files.pop_back();
+  if (in.bad())
+  {
+    printf("tAttributeTree >> Could not read file '%s'\n", at_file.absoluteName().c_str());
+    return eFILE_LOAD_ERROR;
+  }
   if (error >= 0)
   {
     printf("Error in line %i while reading AttributeTree %s\n", error,
-- 
2.43.0

