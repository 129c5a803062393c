From 1138824418d2da63bcfa8b55fec0d32497e2257a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:16 +0000
Subject: [PATCH 01/74] fix: load_file and file_size ignored read errors and
 short reads

---
 strtk.hpp | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index cc44874..17c87a0 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -18459,6 +18459,19 @@ namespace strtk
    namespace fileio
    {
 
+      namespace details
+      {
+         inline bool stream_size(std::ifstream& stream, std::size_t& size)
+         {
+            stream.seekg(0,std::ios::end);
+            const std::streamoff end = stream.tellg();
+            stream.seekg(0,std::ios::beg);
+            if (stream.fail() || (end < 0)) return false;
+            size = static_cast<std::size_t>(end);
+            return true;
+         }
+      }
+
       inline bool file_exists(const std::string& file_name)
       {
          std::ifstream file(file_name.c_str(), std::ios::binary);
@@ -18469,8 +18482,8 @@ namespace strtk
       {
          std::ifstream file(file_name.c_str(),std::ios::binary);
          if (!file) return 0;
-         file.seekg (0, std::ios::end);
-         return static_cast<std::size_t>(file.tellg());
+         std::size_t size = 0;
+         return details::stream_size(file,size) ? size : 0;
       }
 
       inline bool load_file(const std::string& file_name, char* buffer, std::size_t buffer_size)
@@ -18479,13 +18492,18 @@ namespace strtk
          if (!in_stream) return false;
          in_stream.read(buffer,static_cast<std::streamsize>(buffer_size));
          in_stream.close();
-         return true;
+         return !in_stream.fail();
       }
 
       inline bool load_file(const std::string& file_name, std::string& buffer)
       {
-         buffer.resize(file_size(file_name));
-         return load_file(file_name,const_cast<char*>(to_ptr(buffer)),buffer.size());
+         std::size_t size = 0;
+         buffer.resize(0);
+         std::ifstream in_stream(file_name.c_str(),std::ios::binary);
+         if (!in_stream || !details::stream_size(in_stream,size)) return false;
+         buffer.resize(size);
+         in_stream.read(const_cast<char*>(to_ptr(buffer)),static_cast<std::streamsize>(size));
+         return !in_stream.fail();
       }
 
       inline bool write_file(const std::string& file_name, char* buffer, const std::size_t& buffer_size)
-- 
2.43.0


From e35b8e16f7424d174cc9b7b3ca1a4dbcfd59e4f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:16 +0000
Subject: [PATCH 02/74] fix: write_file reported success when the data could
 not be written

---
 strtk.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strtk.hpp b/strtk.hpp
index 17c87a0..41d7590 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -18512,7 +18512,7 @@ namespace strtk
          if (!out_stream) return false;
          out_stream.write(buffer,static_cast<std::streamsize>(buffer_size));
          out_stream.close();
-         return true;
+         return !out_stream.fail();
       }
 
       inline bool write_file(const std::string& file_name, const std::string& buffer)
-- 
2.43.0


From 689ec412229947f502d9fdeace5d15ccf91050c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:16 +0000
Subject: [PATCH 03/74] fix: copy_file reported success after failed reads or
 writes, and emptied the destination when the source is missing

---
 strtk.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 41d7590..0180c03 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -18522,19 +18522,20 @@ namespace strtk
 
       inline bool copy_file(const std::string& src_file_name, const std::string& dest_file_name)
       {
+         std::size_t remaining_bytes = 0;
+
          std::ifstream src_file(src_file_name.c_str(),std::ios::binary);
+         if (!src_file || !details::stream_size(src_file,remaining_bytes)) return false;
          std::ofstream dest_file(dest_file_name.c_str(),std::ios::binary);
-         if (!src_file) return false;
          if (!dest_file) return false;
 
          static const std::size_t block_size = 16 * one_kilobyte;
          char buffer[block_size];
 
-         std::size_t remaining_bytes = file_size(src_file_name);
-
          while (remaining_bytes >= block_size)
          {
             src_file.read(&buffer[0],static_cast<std::streamsize>(block_size));
+            if (!src_file) return false;
             dest_file.write(&buffer[0],static_cast<std::streamsize>(block_size));
             remaining_bytes -= block_size;
          }
@@ -18542,13 +18543,14 @@ namespace strtk
          if (remaining_bytes > 0)
          {
             src_file.read(&buffer[0],static_cast<std::streamsize>(remaining_bytes));
+            if (!src_file) return false;
             dest_file.write(&buffer[0],static_cast<std::streamsize>(remaining_bytes));
             remaining_bytes = 0;
          }
 
          src_file.close();
          dest_file.close();
-         return true;
+         return !dest_file.fail();
       }
 
       inline bool concatenate(const std::string& file_name1,
-- 
2.43.0


From 75208bcc0d9ee67825acfd03bb1020e55e7b719d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:16 +0000
Subject: [PATCH 04/74] fix: concatenate reported success after failed reads or
 writes, and emptied the output when an input is missing

---
 strtk.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 0180c03..79283bc 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -18559,9 +18559,12 @@ namespace strtk
       {
          std::ifstream file1(file_name1.c_str(),std::ios::binary);
          std::ifstream file2(file_name2.c_str(),std::ios::binary);
+
+         if (!file1 || !file2) return false;
+
          std::ofstream out_file(output_file_name.c_str(),std::ios::binary);
 
-         if (!file1 || !file2 || !out_file) return false;
+         if (!out_file) return false;
 
          static const std::size_t block_size = 16 * one_kilobyte;
          char buffer[block_size];
@@ -18571,11 +18574,12 @@ namespace strtk
          while (round < 2)
          {
             std::ifstream& input_stream = ((0 == round) ? file1 : file2);
-            remaining_bytes = ((0 == round) ? file_size(file_name1) : file_size(file_name2));
+            if (!details::stream_size(input_stream,remaining_bytes)) return false;
 
             while (remaining_bytes >= block_size)
             {
                input_stream.read(&buffer[0],static_cast<std::streamsize>(block_size));
+               if (!input_stream) return false;
                out_file.write(&buffer[0],static_cast<std::streamsize>(block_size));
                remaining_bytes -= block_size;
             }
@@ -18583,6 +18587,7 @@ namespace strtk
             if (remaining_bytes > 0)
             {
                input_stream.read(&buffer[0],static_cast<std::streamsize>(remaining_bytes));
+               if (!input_stream) return false;
                out_file.write(&buffer[0],static_cast<std::streamsize>(remaining_bytes));
                remaining_bytes = 0;
             }
@@ -18591,7 +18596,7 @@ namespace strtk
             ++round;
          }
          out_file.close();
-         return true;
+         return !out_file.fail();
       }
 
       inline bool files_identical(const std::string& file_name1, const std::string& file_name2)
-- 
2.43.0


From 35332b354a47a27fcc249258c8d733ca76da799b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:16 +0000
Subject: [PATCH 05/74] fix: files_identical compared stale buffers after a
 failed or short read

---
 strtk.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 79283bc..8d70461 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -18605,18 +18605,22 @@ namespace strtk
          std::ifstream file2(file_name2.c_str(),std::ios::binary);
          if (!file1) return false;
          if (!file2) return false;
-         if (file_size(file_name1) != file_size(file_name2)) return false;
+
+         std::size_t remaining_bytes = 0;
+         std::size_t file2_size = 0;
+         if (!details::stream_size(file1,remaining_bytes)) return false;
+         if (!details::stream_size(file2,file2_size)) return false;
+         if (remaining_bytes != file2_size) return false;
 
          static const std::size_t block_size = 16 * one_kilobyte;
          char buffer1[block_size];
          char buffer2[block_size];
 
-         std::size_t remaining_bytes = file_size(file_name1);
-
          while (remaining_bytes >= block_size)
          {
             file1.read(&buffer1[0],static_cast<std::streamsize>(block_size));
             file2.read(&buffer2[0],static_cast<std::streamsize>(block_size));
+            if (!file1 || !file2) return false;
             if (0 != std::memcmp(buffer1,buffer2,block_size))
                return false;
             remaining_bytes -= block_size;
@@ -18626,6 +18630,7 @@ namespace strtk
          {
             file1.read(&buffer1[0],static_cast<std::streamsize>(remaining_bytes));
             file2.read(&buffer2[0],static_cast<std::streamsize>(remaining_bytes));
+            if (!file1 || !file2) return false;
             if (0 != std::memcmp(buffer1,buffer2,remaining_bytes))
                return false;
             remaining_bytes = 0;
-- 
2.43.0


From 412e3d3ee3f3951f8eac507558b85f378f4848a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:48 +0000
Subject: [PATCH 06/74] fix: write_to_text_file counted elements that a failing
 stream did not take

---
 strtk.hpp | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 8d70461..6655cbd 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -674,6 +674,7 @@ namespace strtk
          while (end != itr)
          {
             stream << (*itr) << delimiter;
+            if (!stream) return count;
             ++itr;
             ++count;
          }
@@ -683,6 +684,7 @@ namespace strtk
          while (end != itr)
          {
             stream << (*itr);
+            if (!stream) return count;
             ++itr;
             ++count;
          }
@@ -709,6 +711,7 @@ namespace strtk
          while (end != itr)
          {
             stream << (*itr) << delimiter;
+            if (!stream) return count;
             ++itr;
             ++count;
          }
@@ -718,6 +721,7 @@ namespace strtk
          while (end != itr)
          {
             stream << (*itr);
+            if (!stream) return count;
             ++itr;
             ++count;
          }
@@ -744,6 +748,7 @@ namespace strtk
          while (end != itr)
          {
             stream << (*itr) << delimiter;
+            if (!stream) return count;
             ++itr;
             ++count;
          }
@@ -753,6 +758,7 @@ namespace strtk
          while (end != itr)
          {
             stream << (*itr);
+            if (!stream) return count;
             ++itr;
             ++count;
          }
@@ -771,8 +777,11 @@ namespace strtk
       std::ofstream stream(file_name.c_str());
       if (!stream)
          return 0;
-      else
-         return write_to_text_file(stream,sequence,delimiter);
+
+      const std::size_t count = write_to_text_file(stream,sequence,delimiter);
+      stream.close();
+
+      return stream.fail() ? 0 : count;
    }
 
    template <typename T,
@@ -785,8 +794,11 @@ namespace strtk
       std::ofstream stream(file_name.c_str());
       if (!stream)
          return 0;
-      else
-         return write_to_text_file(stream,set,delimiter);
+
+      const std::size_t count = write_to_text_file(stream,set,delimiter);
+      stream.close();
+
+      return stream.fail() ? 0 : count;
    }
 
    template <typename T,
@@ -799,8 +811,11 @@ namespace strtk
       std::ofstream stream(file_name.c_str());
       if (!stream)
          return 0;
-      else
-         return write_to_text_file(stream,multiset,delimiter);
+
+      const std::size_t count = write_to_text_file(stream,multiset,delimiter);
+      stream.close();
+
+      return stream.fail() ? 0 : count;
    }
 
    template <typename InputIterator, typename OutputIterator>
-- 
2.43.0


From 5fa1e0b942243cc1bd5ca63e528baad8e5c0f06a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:30 +0000
Subject: [PATCH 07/74] fix: read_line_as_value did not compile for built-in
 types (string_to_type_converter not declared before use)

---
 strtk.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/strtk.hpp b/strtk.hpp
index 6655cbd..5cfa97f 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -240,6 +240,9 @@ namespace strtk
          return 0;
    }
 
+   template <typename T>
+   inline bool string_to_type_converter(const std::string& s, T& t);
+
    template <typename T>
    inline bool read_line_as_value(std::istream& stream,
                                   T& t,
-- 
2.43.0


From 9600650c0f6a4f94c18cd369d0349d132e35d5fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:14 +0000
Subject: [PATCH 08/74] fix: fileio::read_pod and write_pod on streams
 (inverted array results, missing return values, const-incorrect casts)

---
 strtk.hpp | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 5cfa97f..1e518f9 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -18672,7 +18672,7 @@ namespace strtk
          template <typename T>
          inline bool write_pod_proxy(std::ofstream& stream, const T& t)
          {
-            return (false == stream.write(reinterpret_cast<char*>(&t),
+            return (false == stream.write(reinterpret_cast<const char*>(&t),
                                           static_cast<std::streamsize>(sizeof(T))).fail());
          }
       }
@@ -18810,7 +18810,7 @@ namespace strtk
       template <typename T, std::size_t N>
       inline bool read_pod(std::ifstream& stream, T (&t)[N])
       {
-         return (false != stream.read(reinterpret_cast<char*>(&t[0]),sizeof(T) * N).fail());
+         return (false == stream.read(reinterpret_cast<char*>(&t[0]),sizeof(T) * N).fail());
       }
 
       template <typename T,
@@ -19006,7 +19006,7 @@ namespace strtk
       template <typename T, std::size_t N>
       inline bool write_pod(std::ofstream& stream, T (&t)[N])
       {
-         return (false != stream.write(reinterpret_cast<char*>(&t[0]),sizeof(T) * N).fail());
+         return (false == stream.write(reinterpret_cast<const char*>(&t[0]),sizeof(T) * N).fail());
       }
 
       template <typename T,
@@ -19015,8 +19015,8 @@ namespace strtk
       inline bool write_pod(std::ofstream& stream,
                             const Sequence<T,Allocator>& sequence)
       {
-         typename Sequence<T,Allocator>::iterator itr = sequence.begin();
-         typename Sequence<T,Allocator>::iterator end = sequence.end();
+         typename Sequence<T,Allocator>::const_iterator itr = sequence.begin();
+         typename Sequence<T,Allocator>::const_iterator end = sequence.end();
 
          while (end != itr)
          {
@@ -19025,6 +19025,8 @@ namespace strtk
             else
                return false;
          }
+
+         return true;
       }
 
       template <typename T,
@@ -19033,8 +19035,8 @@ namespace strtk
       inline bool write_pod(std::ofstream& stream,
                             const std::set<T,Comparator,Allocator>& set)
       {
-         typename std::set<T,Comparator,Allocator>::iterator itr = set.begin();
-         typename std::set<T,Comparator,Allocator>::iterator end = set.end();
+         typename std::set<T,Comparator,Allocator>::const_iterator itr = set.begin();
+         typename std::set<T,Comparator,Allocator>::const_iterator end = set.end();
 
          while (end != itr)
          {
@@ -19043,6 +19045,8 @@ namespace strtk
             else
                return false;
          }
+
+         return true;
       }
 
       template <typename T,
@@ -19051,8 +19055,8 @@ namespace strtk
       inline bool write_pod(std::ofstream& stream,
                             const std::multiset<T,Comparator,Allocator>& multiset)
       {
-         typename std::multiset<T,Comparator,Allocator>::iterator itr = multiset.begin();
-         typename std::multiset<T,Comparator,Allocator>::iterator end = multiset.end();
+         typename std::multiset<T,Comparator,Allocator>::const_iterator itr = multiset.begin();
+         typename std::multiset<T,Comparator,Allocator>::const_iterator end = multiset.end();
 
          while (end != itr)
          {
@@ -19061,6 +19065,8 @@ namespace strtk
             else
                return false;
          }
+
+         return true;
       }
 
       inline bool read_at_offset(std::ifstream& stream,
-- 
2.43.0


From 707bfb5d40d76529dacefbbdfd4a05257872c56d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:14 +0000
Subject: [PATCH 09/74] fix: in-memory read_pod and write_pod of containers did
 not compile (const target, cast to T instead of T*)

---
 strtk.hpp | 54 ++++++++++++++++++++++++++++++++++++------------------
 1 file changed, 36 insertions(+), 18 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 1e518f9..208c5db 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -19309,11 +19309,15 @@ namespace strtk
              template <typename,typename> class Sequence>
    inline unsigned char* read_pod(unsigned char* data,
                                   const std::size_t& n,
-                                  const Sequence<T,Allocator>& sequence)
+                                  Sequence<T,Allocator>& sequence)
    {
-      T* ptr = reinterpret_cast<T>(data);
-      std::copy(ptr, ptr + n, std::back_inserter(sequence));
-      return data + (sequence.size() * sizeof(T));
+      for (std::size_t i = 0; i < n; ++i, data += sizeof(T))
+      {
+         T t;
+         ::memcpy(&t, data, sizeof(T));
+         sequence.push_back(t);
+      }
+      return data;
    }
 
    template <typename T,
@@ -19321,11 +19325,15 @@ namespace strtk
              typename Allocator>
    inline unsigned char* read_pod(unsigned char* data,
                                   const std::size_t& n,
-                                  const std::set<T,Comparator,Allocator>& set)
+                                  std::set<T,Comparator,Allocator>& set)
    {
-      T* ptr = reinterpret_cast<T>(data);
-      std::copy(ptr, ptr + n, std::inserter(set,set.begin()));
-      return data + (set.size() * sizeof(T));
+      for (std::size_t i = 0; i < n; ++i, data += sizeof(T))
+      {
+         T t;
+         ::memcpy(&t, data, sizeof(T));
+         set.insert(t);
+      }
+      return data;
    }
 
    template <typename T,
@@ -19333,11 +19341,15 @@ namespace strtk
              typename Allocator>
    inline unsigned char* read_pod(unsigned char* data,
                                   const std::size_t& n,
-                                  const std::multiset<T,Comparator,Allocator>& multiset)
+                                  std::multiset<T,Comparator,Allocator>& multiset)
    {
-      T* ptr = reinterpret_cast<T>(data);
-      std::copy(ptr, ptr + n, std::inserter(multiset,multiset.begin()));
-      return data + (multiset.size() * sizeof(T));
+      for (std::size_t i = 0; i < n; ++i, data += sizeof(T))
+      {
+         T t;
+         ::memcpy(&t, data, sizeof(T));
+         multiset.insert(t);
+      }
+      return data;
    }
 
    template <typename T1,  typename T2, typename  T3, typename  T4,
@@ -19551,9 +19563,12 @@ namespace strtk
    inline unsigned char* write_pod(unsigned char* data,
                                    const std::set<T,Comparator,Allocator>& set)
    {
-      T* ptr = reinterpret_cast<T>(data);
-      std::copy(set.begin(),set.end(),ptr);
-      return data + (set.size() * sizeof(T));
+      typename std::set<T,Comparator,Allocator>::const_iterator itr = set.begin();
+      for (; set.end() != itr; ++itr, data += sizeof(T))
+      {
+         ::memcpy(data, &(*itr), sizeof(T));
+      }
+      return data;
    }
 
    template <typename T,
@@ -19562,9 +19577,12 @@ namespace strtk
    inline unsigned char* write_pod(unsigned char* data,
                                    const std::multiset<T,Comparator,Allocator>& multiset)
    {
-      T* ptr = reinterpret_cast<T>(data);
-      std::copy(multiset.begin(),multiset.end(),ptr);
-      return data + (multiset.size() * sizeof(T));
+      typename std::multiset<T,Comparator,Allocator>::const_iterator itr = multiset.begin();
+      for (; multiset.end() != itr; ++itr, data += sizeof(T))
+      {
+         ::memcpy(data, &(*itr), sizeof(T));
+      }
+      return data;
    }
 
    class string_condition
-- 
2.43.0


From 88a30c4da591996b82f0fd2b4f5c56de75af0695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:38 +0000
Subject: [PATCH 10/74] fix: 32-bit byte order conversion used the wrong masks

---
 strtk.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 208c5db..e76d8b4 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -13768,8 +13768,8 @@ namespace strtk
          static inline unsigned int convert(const unsigned int v)
          {
             //static_assert(4 == sizeof(v),"");
-            return ((v >> 24) & 0x000000FF) | ((v << 24) & 0x0000FF00) |
-                   ((v <<  8) & 0x00FF0000) | ((v >>  8) & 0xFF000000);
+            return ((v >> 24) & 0x000000FF) | ((v << 24) & 0xFF000000) |
+                   ((v <<  8) & 0x00FF0000) | ((v >>  8) & 0x0000FF00);
          }
 
          static inline unsigned long long int convert(const unsigned long long int v)
-- 
2.43.0


From c3de7ebcff5a35776f348cd3e99957a17779db25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:38 +0000
Subject: [PATCH 11/74] fix: binary reader and writer reported success when the
 stream transferred less than asked

---
 strtk.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index e76d8b4..5fb4195 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -14136,14 +14136,14 @@ namespace strtk
          {
             if (length > buffer_length_) return false;
             stream.read(original_buffer_,static_cast<std::streamsize>(length));
-            return true;
+            return !stream.fail();
          }
 
          inline bool operator()(std::ifstream& stream)
          {
             if (0 == amount_read_sofar_) return false;
             stream.read(original_buffer_,static_cast<std::streamsize>(amount_read_sofar_));
-            return true;
+            return !stream.fail();
          }
 
          template <typename T>
@@ -14552,7 +14552,7 @@ namespace strtk
          inline std::size_t operator()(std::ofstream& stream)
          {
             stream.write(original_buffer_,static_cast<std::streamsize>(amount_written_sofar_));
-            return amount_written_sofar_;
+            return stream.fail() ? 0 : amount_written_sofar_;
          }
 
          template <typename T>
-- 
2.43.0


From 720cd7f87a732bb20467f427569cec746a14bc21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:38 +0000
Subject: [PATCH 12/74] fix: right padded binary write cut the text instead of
 padding it

---
 strtk.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strtk.hpp b/strtk.hpp
index 5fb4195..b6e54ce 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -14606,7 +14606,7 @@ namespace strtk
                else if (s.size() < size)
                {
                   if (right_padding == pmode)
-                     s.resize(size - s.size(),padding);
+                     s.resize(size,padding);
                   else
                      s = std::string(size - s.size(),padding) + s;
                }
-- 
2.43.0


From e27bae065398df65a8034bb6736aa42e84da0fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:38 +0000
Subject: [PATCH 13/74] fix: binary reader read no elements when given a 64-bit
 length

---
 strtk.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strtk.hpp b/strtk.hpp
index b6e54ce..d3a614d 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -13997,7 +13997,7 @@ namespace strtk
          inline bool operator()(T*& data, uint64_t& length, const bool read_length = true)
          {
             uint32_t l = 0;
-            if (read_length)
+            if (!read_length)
                l = static_cast<uint32_t>(length);
             if (!operator()(data,l,read_length))
                return false;
-- 
2.43.0


From 8cd4524fcc18042b2402f7ea8041a2e38def3454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:38 +0000
Subject: [PATCH 14/74] fix: binary reader carried elements of one nested
 container over into the next

---
 strtk.hpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index d3a614d..5fe37b7 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -14049,10 +14049,9 @@ namespace strtk
             if (!buffer_capacity_ok(raw_size))             \
                return false;                               \
                                                            \
-            T t = T();                                     \
-                                                           \
             for (std::size_t i = 0; i < size; ++i)         \
             {                                              \
+               T t = T();                                  \
                if (operator()(t))                          \
                   seq.push_back(t);                        \
                else                                        \
@@ -14097,9 +14096,9 @@ namespace strtk
             if (!buffer_capacity_ok(raw_size))
                return false;
 
-            T t;
             for (std::size_t i = 0; i < size; ++i)
             {
+               T t = T();
                if (!operator()(t))
                   return false;
                set.insert(t);
@@ -14121,9 +14120,9 @@ namespace strtk
             if (!buffer_capacity_ok(raw_size))
                return false;
 
-            T t;
             for (std::size_t i = 0; i < size; ++i)
             {
+               T t = T();
                if (!operator()(t))
                   return false;
                multiset.insert(t);
@@ -14262,10 +14261,9 @@ namespace strtk
                                                     std::vector<T,Allocator>& v,
                                                     const bool)
                {
-                  T t;
-
                   for (std::size_t i = 0; i < size; ++i)
                   {
+                     T t = T();
                      if (r.operator()(t))
                         v[i] = t;
                      else
-- 
2.43.0


From 4f193228368b8ae7c8bf1fd721dbc81e479f383b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:12 +0000
Subject: [PATCH 15/74] fix: binary reader and writer refused containers of
 strings and objects that fit, by demanding sizeof(T) bytes per element

---
 strtk.hpp | 46 +++++++++++++++++++++++++++++++---------------
 1 file changed, 31 insertions(+), 15 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 5fe37b7..4728b07 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -14045,8 +14045,9 @@ namespace strtk
             if (!read_pod(size))                           \
                return false;                               \
                                                            \
-            const std::size_t raw_size = size * sizeof(T); \
-            if (!buffer_capacity_ok(raw_size))             \
+            const std::size_t min_size =                   \
+               size * selector<T>::type::minimum_size();   \
+            if (!buffer_capacity_ok(min_size))             \
                return false;                               \
                                                            \
             for (std::size_t i = 0; i < size; ++i)         \
@@ -14073,9 +14074,7 @@ namespace strtk
             if (!read_pod(size))
                return false;
 
-            const std::size_t raw_size = size * sizeof(T);
-
-            if (!buffer_capacity_ok(raw_size))
+            if (!buffer_capacity_ok(size * selector<T>::type::minimum_size()))
                return false;
 
             vec.resize(size);
@@ -14092,8 +14091,7 @@ namespace strtk
             if (!read_pod(size))
                return false;
 
-            const std::size_t raw_size = size * sizeof(T);
-            if (!buffer_capacity_ok(raw_size))
+            if (!buffer_capacity_ok(size * selector<T>::type::minimum_size()))
                return false;
 
             for (std::size_t i = 0; i < size; ++i)
@@ -14116,8 +14114,7 @@ namespace strtk
             if (!read_pod(size))
                return false;
 
-            const std::size_t raw_size = size * sizeof(T);
-            if (!buffer_capacity_ok(raw_size))
+            if (!buffer_capacity_ok(size * selector<T>::type::minimum_size()))
                return false;
 
             for (std::size_t i = 0; i < size; ++i)
@@ -14248,6 +14245,12 @@ namespace strtk
             template <typename T, typename IsPOD>
             struct selector_impl
             {
+               static inline std::size_t minimum_size()
+               {
+                  //The encoding of an element takes at least one byte.
+                  return 1;
+               }
+
                template <typename Reader>
                static inline bool run(Reader& r, T& t)
                {
@@ -14277,6 +14280,11 @@ namespace strtk
             template <typename T>
             struct selector_impl<T,strtk::details::yes_t>
             {
+               static inline std::size_t minimum_size()
+               {
+                  return sizeof(T);
+               }
+
                template <typename Reader>
                static inline bool run(Reader& r,
                                       T& t,
@@ -14487,7 +14495,7 @@ namespace strtk
          {
             const uint32_t size = static_cast<uint32_t>(vec.size());
             const std::size_t raw_size = (size * sizeof(T));
-            if (!buffer_capacity_ok(raw_size + sizeof(size)))
+            if (!buffer_capacity_ok((size * selector<T>::type::minimum_size()) + sizeof(size)))
                return false;
             if (!operator()(size))
                return false;
@@ -14503,9 +14511,7 @@ namespace strtk
             if (!operator()(size))
                return false;
 
-            const std::size_t raw_size = size * sizeof(T);
-
-            if (!buffer_capacity_ok(raw_size))
+            if (!buffer_capacity_ok(size * selector<T>::type::minimum_size()))
                return false;
 
             typename std::set<T,Comparator,Allocator>::const_iterator itr = set.begin();
@@ -14530,8 +14536,7 @@ namespace strtk
             if (!operator()(size))
                return false;
 
-            const std::size_t raw_size = size * sizeof(T);
-            if (!buffer_capacity_ok(raw_size))
+            if (!buffer_capacity_ok(size * selector<T>::type::minimum_size()))
                return false;
 
             typename std::multiset<T,Allocator,Comparator>::const_iterator itr = multiset.begin();
@@ -14644,6 +14649,12 @@ namespace strtk
             template <typename T, typename IsPOD>
             struct selector_impl
             {
+               static inline std::size_t minimum_size()
+               {
+                  //The encoding of an element takes at least one byte.
+                  return 1;
+               }
+
                template <typename Writer>
                static inline bool run(Writer& w, const T& t)
                {
@@ -14671,6 +14682,11 @@ namespace strtk
             template <typename T>
             struct selector_impl<T,strtk::details::yes_t>
             {
+               static inline std::size_t minimum_size()
+               {
+                  return sizeof(T);
+               }
+
                template <typename Writer>
                static inline bool run(Writer& w, const T& t)
                {
-- 
2.43.0


From 6db5f6e65b4ad6318a0d0e4a00ae9b25f729d463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:32 +0000
Subject: [PATCH 16/74] fix: bloom filter copies started from an uninitialised
 table pointer and lost the target when memory ran out

---
 strtk.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 4728b07..6b40893 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -20191,6 +20191,7 @@ namespace strtk
          }
 
          filter(const filter& filter)
+         : bit_table_(0)
          {
             this->operator=(filter);
          }
@@ -20223,6 +20224,9 @@ namespace strtk
          {
             if (this != &f)
             {
+               std::vector<bloom_type> salt(f.salt_);
+               cell_type* bit_table     = new cell_type[static_cast<std::size_t>(f.raw_table_size_)];
+               std::copy(f.bit_table_, f.bit_table_ + f.raw_table_size_, bit_table);
                salt_count_              = f.salt_count_;
                table_size_              = f.table_size_;
                raw_table_size_          = f.raw_table_size_;
@@ -20231,9 +20235,8 @@ namespace strtk
                random_seed_             = f.random_seed_;
                desired_false_positive_probability_ = f.desired_false_positive_probability_;
                delete[] bit_table_;
-               bit_table_               = new cell_type[static_cast<std::size_t>(raw_table_size_)];
-               std::copy(f.bit_table_, f.bit_table_ + raw_table_size_, bit_table_);
-               salt_                    = f.salt_;
+               bit_table_               = bit_table;
+               salt_.swap(salt);
             }
             return *this;
          }
-- 
2.43.0


From f862df113ad0ab569171209f960b3fe17718ff1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:32 +0000
Subject: [PATCH 17/74] fix: bloom filter table was a byte short when its size
 in bits is no multiple of eight

---
 strtk.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/strtk.hpp b/strtk.hpp
index 6b40893..cfffa1f 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -20185,7 +20185,7 @@ namespace strtk
             salt_count_ = p.optimal_parameters.number_of_hashes;
             table_size_ = p.optimal_parameters.table_size;
             generate_unique_salt();
-            raw_table_size_ = table_size_ / bits_per_char;
+            raw_table_size_ = raw_size(table_size_);
             bit_table_ = new cell_type[static_cast<std::size_t>(raw_table_size_)];
             std::fill_n(&bit_table_[0], static_cast<std::size_t>(raw_table_size_), static_cast<unsigned char>(0x00));
          }
@@ -20524,6 +20524,11 @@ namespace strtk
 
       protected:
 
+         static inline unsigned long long int raw_size(const unsigned long long int& bits)
+         {
+            return (bits / bits_per_char) + ((0 != (bits % bits_per_char)) ? 1 : 0);
+         }
+
          inline virtual void compute_indices(const bloom_type& hash, std::size_t& bit_index, std::size_t& bit) const
          {
             bit_index = static_cast<std::size_t>(hash % table_size_);
-- 
2.43.0


From 636539b42fc760d689c3400f4e6e897603866d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:06 +0000
Subject: [PATCH 18/74] fix: bloom filter compression wrote past the new table
 and left the old table size behind

---
 strtk.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index cfffa1f..89f4207 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -20726,20 +20726,24 @@ namespace strtk
                return false;
             }
 
-            desired_false_positive_probability_ = effective_fpp();
+            size_list.reserve(size_list.size() + 1);
             cell_type* tmp = new cell_type[static_cast<std::size_t>(new_table_size / bits_per_char)];
+            desired_false_positive_probability_ = effective_fpp();
             std::copy(bit_table_, bit_table_ + (new_table_size / bits_per_char), tmp);
             cell_type* itr = bit_table_ + (new_table_size / bits_per_char);
-            cell_type* end = bit_table_ + (original_table_size / bits_per_char);
+            cell_type* end = bit_table_ + raw_table_size_;
             cell_type* itr_tmp = tmp;
+            cell_type* end_tmp = tmp + (new_table_size / bits_per_char);
 
             while (end != itr)
             {
                *(itr_tmp++) |= (*itr++);
+               if (end_tmp == itr_tmp) itr_tmp = tmp;
             }
 
             delete[] bit_table_;
             bit_table_ = tmp;
+            raw_table_size_ = new_table_size / bits_per_char;
             size_list.push_back(new_table_size);
 
             return true;
-- 
2.43.0


From 5f8df5c843b160b45c8480c065c1470321d137c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:06 +0000
Subject: [PATCH 19/74] fix: bloom filter lost the compressed sizes in copies,
 set operations, comparisons and assignments through the base class

---
 strtk.hpp | 46 ++++++++++++++++++----------------------------
 1 file changed, 18 insertions(+), 28 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 89f4207..e09994a 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -20209,6 +20209,7 @@ namespace strtk
                   (random_seed_                        == f.random_seed_)                        &&
                   (desired_false_positive_probability_ == f.desired_false_positive_probability_) &&
                   (salt_                               == f.salt_)                               &&
+                  (size_list                           == f.size_list)                           &&
                   std::equal(f.bit_table_, f.bit_table_ + raw_table_size_, bit_table_);
             }
             else
@@ -20225,6 +20226,7 @@ namespace strtk
             if (this != &f)
             {
                std::vector<bloom_type> salt(f.salt_);
+               std::vector<unsigned long long int> sizes(f.size_list);
                cell_type* bit_table     = new cell_type[static_cast<std::size_t>(f.raw_table_size_)];
                std::copy(f.bit_table_, f.bit_table_ + f.raw_table_size_, bit_table);
                salt_count_              = f.salt_count_;
@@ -20237,6 +20239,7 @@ namespace strtk
                delete[] bit_table_;
                bit_table_               = bit_table;
                salt_.swap(salt);
+               size_list.swap(sizes);
             }
             return *this;
          }
@@ -20359,7 +20362,7 @@ namespace strtk
 
          inline virtual unsigned long long int size() const
          {
-            return table_size_;
+            return size_list.empty() ? table_size_ : size_list.back();
          }
 
          inline std::size_t element_count() const
@@ -20385,7 +20388,8 @@ namespace strtk
             if (
                 (salt_count_  == f.salt_count_) &&
                 (table_size_  == f.table_size_) &&
-                (random_seed_ == f.random_seed_)
+                (random_seed_ == f.random_seed_) &&
+                (size_list    == f.size_list)
                )
             {
                for (std::size_t i = 0; i < raw_table_size_; ++i)
@@ -20402,7 +20406,8 @@ namespace strtk
             if (
                 (salt_count_  == f.salt_count_) &&
                 (table_size_  == f.table_size_) &&
-                (random_seed_ == f.random_seed_)
+                (random_seed_ == f.random_seed_) &&
+                (size_list    == f.size_list)
                )
             {
                for (std::size_t i = 0; i < raw_table_size_; ++i)
@@ -20419,7 +20424,8 @@ namespace strtk
             if (
                 (salt_count_  == f.salt_count_) &&
                 (table_size_  == f.table_size_) &&
-                (random_seed_ == f.random_seed_)
+                (random_seed_ == f.random_seed_) &&
+                (size_list    == f.size_list)
                )
             {
                for (std::size_t i = 0; i < raw_table_size_; ++i)
@@ -20532,6 +20538,10 @@ namespace strtk
          inline virtual void compute_indices(const bloom_type& hash, std::size_t& bit_index, std::size_t& bit) const
          {
             bit_index = static_cast<std::size_t>(hash % table_size_);
+            for (std::size_t i = 0; i < size_list.size(); ++i)
+            {
+               bit_index %= size_list[i];
+            }
             bit = bit_index % bits_per_char;
          }
 
@@ -20663,6 +20673,7 @@ namespace strtk
             return hash;
          }
 
+         std::vector<unsigned long long int> size_list;    // sizes the table has been compressed to
          std::vector<bloom_type> salt_;
          unsigned char*          bit_table_;
          unsigned int            salt_count_;
@@ -20701,14 +20712,7 @@ namespace strtk
 
          compressible_filter(const parameters& p)
          : filter(p)
-         {
-            size_list.push_back(table_size_);
-         }
-
-         inline virtual unsigned long long int size() const
-         {
-            return size_list.back();
-         }
+         {}
 
          inline bool compress(const double& percentage)
          {
@@ -20717,8 +20721,8 @@ namespace strtk
                return false;
             }
 
-            unsigned long long int original_table_size = size_list.back();
-            unsigned long long int new_table_size = static_cast<unsigned long long int>((size_list.back() * (1.0 - (percentage / 100.0))));
+            unsigned long long int original_table_size = size();
+            unsigned long long int new_table_size = static_cast<unsigned long long int>((original_table_size * (1.0 - (percentage / 100.0))));
             new_table_size -= (((new_table_size % bits_per_char) != 0) ? (new_table_size % bits_per_char) : 0);
 
             if ((bits_per_char > new_table_size) || (new_table_size >= original_table_size))
@@ -20748,20 +20752,6 @@ namespace strtk
 
             return true;
          }
-
-      private:
-
-         inline virtual void compute_indices(const bloom_type& hash, std::size_t& bit_index, std::size_t& bit) const
-         {
-            bit_index = hash;
-            for (std::size_t i = 0; i < size_list.size(); ++i)
-            {
-               bit_index %= size_list[i];
-            }
-            bit = bit_index % bits_per_char;
-         }
-
-         std::vector<unsigned long long int> size_list;
       };
 
    }
-- 
2.43.0


From 2875d327500b6c7622b146a8c3220ebca79e6157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:06 +0000
Subject: [PATCH 20/74] fix: bloom filter files: failed writes and reads were
 reported as success, and damaged files were not recognised

---
 strtk.hpp | 85 +++++++++++++++++++++++++++++--------------------------
 1 file changed, 45 insertions(+), 40 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index e09994a..2f6aa33 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -20455,12 +20455,13 @@ namespace strtk
                                             salt_count_ * sizeof(           bloom_type) +
                                               static_cast<std::size_t>(raw_table_size_) *
                                                                       sizeof(cell_type) +
+                                             size_list.size() * sizeof(table_size_) +
                                             64; // handle array sizes etc.
+            std::vector<unsigned char> buffer(buffer_size);
             std::ofstream ostream(file_name.c_str(),std::ios::binary);
             if (!ostream)
                return false;
-            unsigned char* buffer = new unsigned char[buffer_size];
-            strtk::binary::writer writer(buffer,buffer_size);
+            strtk::binary::writer writer(&buffer[0],buffer_size);
             writer.reset(true);
             bool result = writer(salt_count_)                         &&
                           writer(table_size_)                         &&
@@ -20470,57 +20471,61 @@ namespace strtk
                           writer(random_seed_)                        &&
                           writer(desired_false_positive_probability_) &&
                           writer(salt_)                               &&
-                          writer(bit_table_,raw_table_size_);
+                          writer(bit_table_,raw_table_size_)          &&
+                          (size_list.empty() || writer(size_list));
             if (result)
             {
                writer(ostream);
             }
             ostream.close();
-            delete[] buffer;
-            return result;
+            return result && !ostream.fail();
          }
 
          inline bool read_from_file(const std::string& file_name)
          {
-            std::ifstream istream(file_name.c_str(),std::ios::binary);
+            std::string buffer;
 
-            if (!istream)
+            if (!strtk::fileio::load_file(file_name,buffer))
                return false;
 
-            salt_count_                         = 0;
-            table_size_                         = 0;
-            raw_table_size_                     = 0;
-            projected_element_count_            = 0;
-            inserted_element_count_             = 0;
-            random_seed_                        = 0;
-            desired_false_positive_probability_ = 0.0;
-            salt_.clear();
-
-            if (0 != bit_table_)
-               delete [] bit_table_;
-
-            bit_table_= 0;
-            const std::size_t buffer_size = strtk::fileio::file_size(file_name);
-            unsigned char* buffer = new unsigned char[buffer_size];
-
-            strtk::binary::reader reader(buffer,buffer_size);
-            reader.reset(true);
-            reader(istream,buffer_size);
-            istream.close();
-
-            bool result = reader(salt_count_)                         &&
-                          reader(table_size_)                         &&
-                          reader(raw_table_size_)                     &&
-                          reader(projected_element_count_)            &&
-                          reader(inserted_element_count_)             &&
-                          reader(random_seed_)                        &&
-                          reader(desired_false_positive_probability_) &&
-                          reader(salt_)                               &&
-                          reader(bit_table_,raw_table_size_);
-
-            delete[] buffer;
+            filter f;
+            unsigned long long int raw_table_size = 0;
+            strtk::binary::reader reader(const_cast<char*>(to_ptr(buffer)),buffer.size());
+
+            bool result = reader(f.salt_count_)                         &&
+                          reader(f.table_size_)                         &&
+                          reader(raw_table_size)                        &&
+                          reader(f.projected_element_count_)            &&
+                          reader(f.inserted_element_count_)             &&
+                          reader(f.random_seed_)                        &&
+                          reader(f.desired_false_positive_probability_) &&
+                          reader(f.salt_)                               &&
+                          reader(f.bit_table_,f.raw_table_size_)        &&
+                          ((reader.position() == buffer.size()) || reader(f.size_list));
 
-            return result;
+            if (
+                !result                                     ||
+                (reader.position()  != buffer.size())       ||
+                (f.salt_.size()     != f.salt_count_)       ||
+                (f.raw_table_size_  != raw_table_size)      ||
+                (f.raw_table_size_  != raw_size(f.size()))  ||
+                (f.size_list.end()  != std::find(f.size_list.begin(),f.size_list.end(),0ULL)) ||
+                (0 == f.table_size_)
+               )
+               return false;
+
+            salt_count_                         = f.salt_count_;
+            table_size_                         = f.table_size_;
+            raw_table_size_                     = f.raw_table_size_;
+            projected_element_count_            = f.projected_element_count_;
+            inserted_element_count_             = f.inserted_element_count_;
+            random_seed_                        = f.random_seed_;
+            desired_false_positive_probability_ = f.desired_false_positive_probability_;
+            salt_.swap(f.salt_);
+            size_list.swap(f.size_list);
+            std::swap(bit_table_,f.bit_table_);
+
+            return true;
          }
 
          inline std::size_t hash_count()
-- 
2.43.0


From 9bde91b156752976aa619d61b4d63e0e8afde47e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:17 +0000
Subject: [PATCH 21/74] fix: token_grid kept rows into the freed buffer after a
 failed reload, and freed a buffer of the caller

---
 strtk.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/strtk.hpp b/strtk.hpp
index 2f6aa33..1e2da7a 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -7349,12 +7349,15 @@ namespace strtk
       {
          file_name_ = file_name;
 
+         dsv_index_.clear();
+         state_ = false;
+
          if ((load_from_file_) && (0 != buffer_))
          {
             delete [] buffer_;
-            buffer_ = 0;
          }
 
+         buffer_           = 0;
          buffer_size_      = 0;
          min_column_count_ = 0;
          max_column_count_ = 0;
@@ -7383,6 +7386,8 @@ namespace strtk
                 const token_grid::options& options)
       {
          file_name_ = "";
+         dsv_index_.clear();
+         state_ = false;
 
          if (load_from_file_ && buffer_)
          {
@@ -7390,6 +7395,8 @@ namespace strtk
             buffer_ = 0;
          }
 
+         buffer_           = 0;
+         buffer_size_      = 0;
          min_column_count_ = 0;
          max_column_count_ = 0;
          options_          = options;
-- 
2.43.0


From 1741c71791d3f16554bfef91f83b509502466cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:17 +0000
Subject: [PATCH 22/74] fix: token_grid ignored read errors and short reads
 while loading a file

---
 strtk.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 1e2da7a..4ac7d63 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -7558,17 +7558,17 @@ namespace strtk
             return false;
 
          stream.seekg (0,std::ios::end);
-         buffer_size_ = static_cast<std::size_t>(stream.tellg());
+         const std::streamoff file_size = stream.tellg();
+         stream.seekg (0,std::ios::beg);
 
-         if (0 == buffer_size_)
+         if (stream.fail() || (file_size <= 0))
             return false;
 
-         stream.seekg (0,std::ios::beg);
+         buffer_size_ = static_cast<std::size_t>(file_size);
          buffer_ = new unsigned char[buffer_size_];
          stream.read(reinterpret_cast<char*>(buffer_),static_cast<std::streamsize>(buffer_size_));
-         stream.close();
 
-         return true;
+         return !stream.fail();
       }
 
       template <typename OutputIterator>
-- 
2.43.0


From a8adf9ee64cacd4eac485eaf2c288ba1df572045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:17 +0000
Subject: [PATCH 23/74] fix: token_grid looked for quotes to trim outside empty
 tokens and at both ends of a single one

---
 strtk.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/strtk.hpp b/strtk.hpp
index 4ac7d63..0d4fbe0 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -7534,6 +7534,7 @@ namespace strtk
                for (std::size_t i = 0; i < dsv_index_.token_list.size(); ++i)
                {
                   if (
+                      (1 < std::distance(dsv_index_.token_list[i].first,dsv_index_.token_list[i].second)) &&
                       ((*(dsv_index_.token_list[i].first     )) == '"') &&
                       ((*(dsv_index_.token_list[i].second - 1)) == '"')
                      )
-- 
2.43.0


From e4649c07e55a626d2798451b433005b2f7542bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:17 +0000
Subject: [PATCH 24/74] fix: token_grid leaked its buffer and kept half an
 index when memory ran out while loading

---
 strtk.hpp | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 0d4fbe0..cf5c758 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -7499,12 +7499,29 @@ namespace strtk
 
       inline bool load()
       {
-         if (load_from_file_ && !load_buffer_from_file())
-            return false;
+         try
+         {
+            if (load_from_file_ && !load_buffer_from_file())
+               return false;
 
-         dsv_index_.token_list.clear();
-         dsv_index_.row_index.clear();
+            return index_buffer();
+         }
+         catch (...)
+         {
+            dsv_index_.clear();
 
+            if (load_from_file_ && buffer_)
+            {
+               delete [] buffer_;
+               buffer_ = 0;
+            }
+
+            throw;
+         }
+      }
+
+      inline bool index_buffer()
+      {
          multiple_char_delimiter_predicate text_newline_predicate(options_.row_delimiters);
 
          if (!options_.support_dquotes)
-- 
2.43.0


From b5ec8da2d826e79e7534ca2d795c8a80ccde19e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:17 +0000
Subject: [PATCH 25/74] fix: token_grid counted a quote behind an included
 delimiter twice

---
 strtk.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index cf5c758..fa15e72 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -7470,14 +7470,20 @@ namespace strtk
 
          double_quotes_predicate(const std::string& delimiters)
          : in_bracket_range_(false),
+           last_quote_(0),
            mdp_(delimiters)
          {}
 
-         inline bool operator()(const unsigned char c) const
+         inline bool operator()(const unsigned char& c) const
          {
             if ('"' == c)
             {
-               in_bracket_range_ = !in_bracket_range_;
+               // split may look at the same character more than once
+               if (&c != last_quote_)
+               {
+                  in_bracket_range_ = !in_bracket_range_;
+                  last_quote_ = &c;
+               }
                return false;
             }
             else if (in_bracket_range_)
@@ -7494,6 +7500,7 @@ namespace strtk
       private:
 
          mutable bool in_bracket_range_;
+         mutable const unsigned char* last_quote_;
          mutable strtk::multiple_char_delimiter_predicate mdp_;
       };
 
-- 
2.43.0


From 3d64362db89d07d3347deb25e89df890db3cc343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:17 +0000
Subject: [PATCH 26/74] fix: token_grid row and token removal corrupted the
 index when the predicate threw, and left stale column counts

---
 strtk.hpp | 54 ++++++++++++++++++++++++++++++++++++++++++------------
 1 file changed, 42 insertions(+), 12 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index fa15e72..291da0e 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -6742,6 +6742,7 @@ namespace strtk
          if (index < dsv_index_.row_index.size())
          {
             dsv_index_.remove_row(index);
+            update_minmax_columns();
          }
       }
 
@@ -6758,8 +6759,7 @@ namespace strtk
 
          for (std::size_t i = row_range.first; i < row_range.second; ++i)
          {
-            row_index_range_t& r = dsv_index_.row_index[i];
-            std::size_t temp_r_first = r.first - removed_token_count;
+            const row_index_range_t& r = dsv_index_.row_index[i];
             row_type row(i,dsv_index_);
 
             if (predicate(row))
@@ -6770,12 +6770,25 @@ namespace strtk
                {
                   remove_token_list.push_back(j);
                }
-
-               removed_token_count += row.size();
             }
+         }
+
+         // the predicate may throw, hence nothing has been changed up to here
+         std::deque<std::size_t>::const_iterator removed_row = remove_row_list.begin();
+
+         for (std::size_t i = row_range.first; i < row_range.second; ++i)
+         {
+            row_index_range_t& r = dsv_index_.row_index[i];
+            const std::size_t token_count = dsv_index_.token_count(r);
 
-            r.first   = static_cast<unsigned int>(temp_r_first);
+            r.first  -= static_cast<unsigned int>(removed_token_count);
             r.second -= static_cast<unsigned int>(removed_token_count);
+
+            if ((remove_row_list.end() != removed_row) && (i == *removed_row))
+            {
+               removed_token_count += token_count;
+               ++removed_row;
+            }
          }
 
          for (std::size_t i = row_range.second; i < dsv_index_.row_index.size(); ++i)
@@ -6796,6 +6809,8 @@ namespace strtk
             remove_inplace(index_remover(remove_token_list),dsv_index_.token_list);
          }
 
+         update_minmax_columns();
+
          return true;
       }
 
@@ -6817,8 +6832,8 @@ namespace strtk
 
          for (std::size_t i = row_range.first; i < row_range.second; ++i)
          {
-            row_index_range_t& r = dsv_index_.row_index[i];
-            std::size_t temp_r_first = r.first - removed_token_count;
+            const row_index_range_t& r = dsv_index_.row_index[i];
+            const std::size_t previously_removed = remove_token_list.size();
             row_type row(i,dsv_index_);
 
             for (std::size_t j = 0; j < row.size(); ++j)
@@ -6826,19 +6841,34 @@ namespace strtk
                if (predicate(row.token(j)))
                {
                   remove_token_list.push_back(r.first + j);
-                  ++removed_token_count;
                }
             }
 
-            r.first   = static_cast<unsigned int>(temp_r_first);
-            r.second -= static_cast<unsigned int>(removed_token_count);
-
-            if (0 == dsv_index_.token_count(r))
+            if (row.size() == (remove_token_list.size() - previously_removed))
             {
                remove_row_list.push_back(i);
             }
          }
 
+         // the predicate may throw, hence nothing has been changed up to here
+         std::deque<std::size_t>::const_iterator removed_token = remove_token_list.begin();
+
+         for (std::size_t i = row_range.first; i < row_range.second; ++i)
+         {
+            row_index_range_t& r = dsv_index_.row_index[i];
+            const std::size_t row_end = r.first + dsv_index_.token_count(r);
+
+            r.first -= static_cast<unsigned int>(removed_token_count);
+
+            while ((remove_token_list.end() != removed_token) && (*removed_token < row_end))
+            {
+               ++removed_token_count;
+               ++removed_token;
+            }
+
+            r.second -= static_cast<unsigned int>(removed_token_count);
+         }
+
          for (std::size_t i = row_range.second; i < dsv_index_.row_index.size(); ++i)
          {
             row_index_range_t& r = dsv_index_.row_index[i];
-- 
2.43.0


From 2ab7426d82699ba3d73fc2342ff9933aa8a6f175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:17 +0000
Subject: [PATCH 27/74] fix: token_grid column count enforcement ignored its
 row range

---
 strtk.hpp | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 291da0e..0e2d49d 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -6910,10 +6910,7 @@ namespace strtk
          if (row_range_invalid(row_range))
             return;
 
-         remove_row_if(insufficient_number_of_columns(column_count));
-
-         min_column_count_ = column_count;
-         max_column_count_ = column_count;
+         remove_row_if(row_range,insufficient_number_of_columns(column_count));
       }
 
       inline void enforce_column_count(const std::size_t& column_count)
@@ -6928,10 +6925,7 @@ namespace strtk
          if (row_range_invalid(row_range))
             return;
 
-         remove_row_if(insufficient_number_of_minmax_columns(min_column_count,max_column_count));
-
-         min_column_count_ = min_column_count;
-         max_column_count_ = max_column_count;
+         remove_row_if(row_range,insufficient_number_of_minmax_columns(min_column_count,max_column_count));
       }
 
       inline void enforce_min_max_column_count(const std::size_t& min_column_count,
-- 
2.43.0


From ba8dad58099eee9bd7b2aaafcea1ae0664041faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:17 +0000
Subject: [PATCH 28/74] fix: token_grid accumulate_column counted rows without
 that column

---
 strtk.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 0e2d49d..357fc57 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -7053,9 +7053,9 @@ namespace strtk
                   result += current_value;
                else
                   return 0;
-            }
 
-            ++process_count;
+               ++process_count;
+            }
          }
 
          return process_count;
-- 
2.43.0


From 83216c3b2fe621406649b1cc66e6cea2be737c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:17 +0000
Subject: [PATCH 29/74] fix: token_grid join_row dropped the last token of the
 last row and looked behind the token list

---
 strtk.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 357fc57..8a51ce7 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -7125,9 +7125,9 @@ namespace strtk
          const row_index_range_t& r = dsv_index_.row_index[row];
 
          token_list_t::const_iterator itr = dsv_index_.token_list.begin() + r.first;
-         token_list_t::const_iterator end = dsv_index_.token_list.begin() + r.second + (row < (dsv_index_.row_index.size() - 1) ? 1 : 0);
+         token_list_t::const_iterator end = dsv_index_.token_list.begin() + r.second + 1;
 
-         result.reserve(delimiter.size() * dsv_index_.token_count(r) + std::distance(itr->first,end->second));
+         result.reserve(result.size() + delimiter.size() * dsv_index_.token_count(r) + row_type(row,dsv_index_).raw_length());
 
          bool appended = false;
 
@@ -7162,9 +7162,9 @@ namespace strtk
          const row_index_range_t& r = dsv_index_.row_index[row];
 
          token_list_t::const_iterator itr = (dsv_index_.token_list.begin() + r.first);
-         token_list_t::const_iterator end = dsv_index_.token_list.begin() + r.second + (row < (dsv_index_.row_index.size() - 1) ? 1 : 0);
+         token_list_t::const_iterator end = dsv_index_.token_list.begin() + r.second + 1;
 
-         result.reserve(delimiter.size() * dsv_index_.token_count(r) + std::distance(itr->first,end->second));
+         result.reserve(result.size() + delimiter.size() * dsv_index_.token_count(r) + row_type(row,dsv_index_).raw_length());
 
          bool appended = false;
 
-- 
2.43.0


From a9f6f15843454c257eb33e18d743c83bc91d36f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:17 +0000
Subject: [PATCH 30/74] fix: token_grid join_column with a predicate put no
 delimiter before the last row

---
 strtk.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 8a51ce7..aea2736 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -7258,8 +7258,6 @@ namespace strtk
 
          bool appended = false;
 
-         const std::size_t pre_end_index = row_range.second - 1;
-
          for (std::size_t i = row_range.first; i < row_range.second; ++i)
          {
             const row_index_range_t& r = dsv_index_.row_index[i];
@@ -7269,7 +7267,7 @@ namespace strtk
                row_type row = row_type(i,dsv_index_);
                const range_t& range = row.token(col);
 
-               if (!delimiter.empty() && appended && (pre_end_index != i))
+               if (!delimiter.empty() && appended)
                   result.append(delimiter);
 
                appended = false;
-- 
2.43.0


From 03f5bbff87cff372715fa3ab93e184c38dbb2a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:17 +0000
Subject: [PATCH 31/74] fix: token_grid sequential_partition merged partitions
 of a single row into the next one

---
 strtk.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index aea2736..b09d5d4 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -7309,17 +7309,15 @@ namespace strtk
          {
             if (p(row_type(i,dsv_index_)))
             {
-               if (r.first != r.second)
+               if (r.first != i)
                {
                   r.second = i;
                   if (!f(*this,r))
                      return false;
                }
 
-               r.first = r.second;
+               r.first = i;
             }
-            else
-               r.second = i;
          }
 
          if (r.first != row_range.second)
-- 
2.43.0


From 04a55bcd7805c33e3786d2b7fe32913803b44e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:17 +0000
Subject: [PATCH 32/74] fix: token_grid extract_column wrote every value
 through the first position of a plain iterator

---
 strtk.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index b09d5d4..9f57528 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -7617,7 +7617,7 @@ namespace strtk
       }
 
       template <typename OutputIterator>
-      inline void process_token(const range_t& range, OutputIterator out) const
+      inline void process_token(const range_t& range, OutputIterator& out) const
       {
          typedef typename std::iterator_traits<OutputIterator>::value_type output_type;
          (*out) = string_to_type_converter<output_type>(range.first,range.second);
@@ -7625,7 +7625,7 @@ namespace strtk
       }
 
       template <typename OutputIterator>
-      inline void process_token_checked(const range_t& range, OutputIterator out) const
+      inline void process_token_checked(const range_t& range, OutputIterator& out) const
       {
          typedef typename std::iterator_traits<OutputIterator>::value_type output_type;
 
-- 
2.43.0


From dc49f207cdfb05ec21f4361165759a52da7c4c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:17 +0000
Subject: [PATCH 33/74] fix: token_grid range up to the last row ended at the
 number of tokens

---
 strtk.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 9f57528..e9e5504 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -5490,9 +5490,9 @@ namespace strtk
       {
          if (upper_bound == std::numeric_limits<index_t>::max())
          {
-            upper_bound = static_cast<index_t>(dsv_index_.token_list.size());
+            upper_bound = static_cast<index_t>(dsv_index_.row_index.size());
          }
-         else if (upper_bound > dsv_index_.token_list.size())
+         else if (upper_bound > dsv_index_.row_index.size())
          {
             return row_range_t(std::numeric_limits<index_t>::max(),std::numeric_limits<index_t>::max());
          }
-- 
2.43.0


From 3d19061919d314862bbe823d39272c1627591e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:04 +0000
Subject: [PATCH 34/74] fix: keep trie values at the last node of their key

prefix stored a value at the parent of the key's last node. Keys that
differ only in their last element ("ab" and "ac") therefore shared one
value, and looking up a key that was never inserted could succeed.
---
 strtk.hpp | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index e9e5504..1c35f87 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -19915,7 +19915,6 @@ namespace strtk
 
             key_iterator_t itr = begin;
             key_value_t key    = (*itr);
-            node_ptr parent    = 0;
             node_ptr next_node = 0;
             node_ptr n = head_ = ((0 == head_) ? new node_t(*itr) : head_);
 
@@ -19928,12 +19927,11 @@ namespace strtk
                   n->add_node(next_node = new node_t(key));
                }
 
-               parent = n;
                n = next_node;
                ++itr;
             }
 
-            parent->assign_value(v);
+            n->assign_value(v);
          }
 
          template <typename key_iterator_t>
@@ -19945,7 +19943,6 @@ namespace strtk
                return false;
 
             key_iterator_t itr = begin;
-            node_ptr parent = head_;
             node_ptr n = head_;
 
             while (end != itr)
@@ -19955,13 +19952,12 @@ namespace strtk
                if (0 == next_node)
                   return false;
 
-               parent = n;
                n = next_node;
                ++itr;
             }
-            if (!parent->value_holder())
+            if (!n->value_holder())
                return false;
-             v = parent->value();
+             v = n->value();
              return true;
          }
 
-- 
2.43.0


From 0f83fa0e74a2e9d1dccb68f3c5e087b984a21386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:04 +0000
Subject: [PATCH 35/74] fix: do not leak a trie node when its parent cannot
 grow

insert() allocated the node first and lost it when the parent's list of
children could not be extended.
---
 strtk.hpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 1c35f87..0c16609 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -19861,9 +19861,19 @@ namespace strtk
                value_holder_ = true;
             }
 
-            inline void add_node(node_ptr n)
+            inline void add_node(const key_value_t& key_value)
             {
-               node_list_.push_back(n);
+               node_list_.push_back(static_cast<node_ptr>(0));
+
+               try
+               {
+                  node_list_.back() = new node_t(key_value);
+               }
+               catch (...)
+               {
+                  node_list_.pop_back();
+                  throw;
+               }
             }
 
             inline bool value_holder() const
@@ -19924,7 +19934,8 @@ namespace strtk
 
                if (0 == (next_node = n->get_node(key)))
                {
-                  n->add_node(next_node = new node_t(key));
+                  n->add_node(key);
+                  next_node = n->get_node(key);
                }
 
                n = next_node;
-- 
2.43.0


From 8cb5011bac7b080df850a801072a2d32d5ae7f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:04 +0000
Subject: [PATCH 36/74] fix: make the C string overloads of the trie functions
 compile

insert, find and find_prefix for const char* keys called members that do
not exist, hence any use of them failed to compile.
---
 strtk.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 0c16609..a5c8329 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -20014,7 +20014,8 @@ namespace strtk
                          const char* key,
                          const Value& value = Value(0))
       {
-         trie.insert(std::string(key),value);
+         const std::string key_str(key);
+         trie.insert(key_str.begin(),key_str.end(),value);
       }
 
       template <typename Value>
@@ -20030,7 +20031,7 @@ namespace strtk
                        const char* key,
                        Value& v)
       {
-         return trie.find_prefix(trie,std::string(key),v);
+         return find(trie,std::string(key),v);
       }
 
       template <typename Value>
@@ -20044,7 +20045,7 @@ namespace strtk
       inline bool find_prefix(prefix<std::string::const_iterator,Value>& trie,
                               const char* key)
       {
-         return trie.find_prefix(trie,std::string(key));
+         return find_prefix(trie,std::string(key));
       }
 
    } // namespace trie
-- 
2.43.0


From 94113a13f7d04161cffe08ccf5a72274b11285fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:01 +0000
Subject: [PATCH 37/74] fix: give copies of a trie nodes of their own

The implicit copy constructor and assignment of prefix shared the nodes
of the source, which both objects then deleted.
---
 strtk.hpp | 36 ++++++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/strtk.hpp b/strtk.hpp
index a5c8329..19534be 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -19876,6 +19876,27 @@ namespace strtk
                }
             }
 
+            inline node_ptr clone() const
+            {
+               node_ptr n = value_holder_ ? new node_t(key_value_,value_) : new node_t(key_value_);
+
+               try
+               {
+                  for (node_list_iterator itr = node_list_.begin(); node_list_.end() != itr; ++itr)
+                  {
+                     n->node_list_.push_back(static_cast<node_ptr>(0));
+                     n->node_list_.back() = (*itr)->clone();
+                  }
+               }
+               catch (...)
+               {
+                  delete n;
+                  throw;
+               }
+
+               return n;
+            }
+
             inline bool value_holder() const
             {
                return value_holder_;
@@ -19915,6 +19936,21 @@ namespace strtk
          : head_(0)
          {}
 
+         prefix(const prefix& trie)
+         : head_((0 == trie.head_) ? 0 : trie.head_->clone())
+         {}
+
+         inline prefix& operator=(const prefix& trie)
+         {
+            if (this != &trie)
+            {
+               prefix copy(trie);
+               std::swap(head_,copy.head_);
+            }
+
+            return (*this);
+         }
+
          template <typename key_iterator_t>
          inline void insert(const key_iterator_t begin,
                             const key_iterator_t end,
-- 
2.43.0


From 90bc526ce8d306b202debec4d08b1d36d7ca0ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:15 +0000
Subject: [PATCH 38/74] fix: let copies of util::value refer to their own
 holder

The implicit copy constructor kept the pointer into the buffer of the
source, so copies (for instance the ones inside a copied key-value
parser) used memory of an object that may be gone. Assigning an empty
value kept the old target instead of becoming empty.
---
 strtk.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/strtk.hpp b/strtk.hpp
index 19534be..bd9bafc 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -21423,6 +21423,13 @@ namespace strtk
             assign(t);
          }
 
+         inline value(const value& v)
+         : type_holder_(0)
+         {
+            std::fill_n(type_holder_buffer_, sizeof(type_holder_buffer_), static_cast<unsigned char>(0x00));
+            operator=(v);
+         }
+
          inline bool operator!() const
          {
             return (0 == type_holder_);
@@ -21446,6 +21453,8 @@ namespace strtk
                             type_holder_buffer_);
                   type_holder_ = reinterpret_cast<type_holder_base*>(type_holder_buffer_);
                }
+               else
+                  type_holder_ = 0;
             }
             return *this;
          }
-- 
2.43.0


From 2ee9194c7c6c5f6e8075c8effb74276ada805c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:15 +0000
Subject: [PATCH 39/74] fix: let copies of a semantic action refer to their own
 holder

The implicit copy constructor kept the pointer into the buffer of the
source, hence a copy called through memory of an object that may be
gone.
---
 strtk.hpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/strtk.hpp b/strtk.hpp
index bd9bafc..34c0a96 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -21203,6 +21203,19 @@ namespace strtk
             assign(f);
          }
 
+         inline semantic_action_impl(const semantic_action_impl& sa)
+         : function_holder_(0)
+         {
+            std::copy(sa.function_holder_buffer_,
+                      sa.function_holder_buffer_ + function_holder_buffer_size,
+                      function_holder_buffer_);
+
+            if (0 != sa.function_holder_)
+            {
+               function_holder_ = reinterpret_cast<function_holder_base*>(function_holder_buffer_);
+            }
+         }
+
          inline bool operator!() const
          {
             return (0 == function_holder_);
-- 
2.43.0


From 7752ffa0ee4b331e3ca6f1efaede09f893eff031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:15 +0000
Subject: [PATCH 40/74] fix: initialise the element count of a sink built on a
 container

The constructor taking the container left element_count_ unset, hence
parse compared the number of elements with an arbitrary value.
---
 strtk.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/strtk.hpp b/strtk.hpp
index 34c0a96..5d5048a 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -15442,7 +15442,8 @@ namespace strtk
                        const split_options::type& split_option = split_options::compress_delimiters)
       : delimiters_(delimiters),
         split_option_(split_option),
-        container_(&container)
+        container_(&container),
+        element_count_(std::numeric_limits<std::size_t>::max())
       {}
 
       inline sink_type& count(const std::size_t& element_count = std::numeric_limits<std::size_t>::max())
-- 
2.43.0


From 7d417c8280be8b9c3767818f25d0ba085bf2329c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:15 +0000
Subject: [PATCH 41/74] fix: do not take an empty key for key zero

uintkey_map converted the empty key of a pair such as "=7" to zero and
overwrote the value registered for key zero.
---
 strtk.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/strtk.hpp b/strtk.hpp
index 5d5048a..86de657 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -24393,6 +24393,8 @@ namespace strtk
          inline bool operator()(const Range& key_range, const Range& value_range)
          {
             std::size_t key = 0;
+            if (key_range.first == key_range.second)
+               return false;
             if (!fast::numeric_convert(distance(key_range),key_range.first,key,true))
                return false;
             if (key >= value_lut_.size())
-- 
2.43.0


From 404cde1828d64c4e18959099980080f48ed4b6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:15 +0000
Subject: [PATCH 42/74] fix: only accept keys that are numbers in range for
 integer key maps

key_map<unsigned int> took an empty key for zero, wrapped keys beyond 32
bits around to small ones and mapped text to the largest key, thereby
assigning the values of unknown keys to registered targets.
---
 strtk.hpp | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 86de657..40e49b1 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -24432,31 +24432,37 @@ namespace strtk
          template <typename Range,typename KType>
          struct keygen
          {
-            static inline KType transform(const Range&)
+            static inline bool transform(const Range&, KType& key)
             {
-               return KType();
+               key = KType();
+               return true;
             }
          };
 
          template <typename Range>
          struct keygen<Range,std::string>
          {
-            static inline std::string transform(const Range& key_range)
+            static inline bool transform(const Range& key_range, std::string& key)
             {
-               return std::string(key_range.first,key_range.second);
+               key.assign(key_range.first,key_range.second);
+               return true;
             }
          };
 
          template <typename Range>
          struct keygen<Range,unsigned int>
          {
-            static inline unsigned int transform(const Range& key_range)
+            static inline bool transform(const Range& key_range, unsigned int& key)
             {
-               unsigned int result = 0;
-               if (strtk::fast::numeric_convert(std::distance(key_range.first,key_range.second),key_range.first,result,true))
-                  return result;
-               else
-                  return std::numeric_limits<unsigned int>::max();
+               unsigned long long int result = 0;
+               if (key_range.first == key_range.second)
+                  return false;
+               if (!strtk::fast::numeric_convert(std::distance(key_range.first,key_range.second),key_range.first,result,true))
+                  return false;
+               if (result > std::numeric_limits<unsigned int>::max())
+                  return false;
+               key = static_cast<unsigned int>(result);
+               return true;
             }
          };
 
@@ -24497,7 +24503,10 @@ namespace strtk
                return false;
             if (!val_validator_(value_range))
                return false;
-            typename map_type::iterator itr = value_map_.find(details::keygen<Range,key_type>::transform(key_range));
+            key_type key;
+            if (!details::keygen<Range,key_type>::transform(key_range,key))
+               return false;
+            typename map_type::iterator itr = value_map_.find(key);
             if (value_map_.end() == itr)
                return false;
             const util::value& v = (*itr).second;
-- 
2.43.0


From 80741512101980b43319a3b692c6cef763ad6a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:51 +0000
Subject: [PATCH 43/74] fix: do not report a huge time when the clock steps
 back within a second

---
 strtk.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/strtk.hpp b/strtk.hpp
index 40e49b1..335cccc 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -24654,7 +24654,13 @@ namespace strtk
             {
                if (!in_use_)
                {
-                  if (stop_time_.tv_sec >= start_time_.tv_sec)
+                  if (
+                       (stop_time_.tv_sec > start_time_.tv_sec) ||
+                       (
+                         (stop_time_.tv_sec  == start_time_.tv_sec ) &&
+                         (stop_time_.tv_usec >= start_time_.tv_usec)
+                       )
+                     )
                   {
                      return 1000000 * (stop_time_.tv_sec  - start_time_.tv_sec ) +
                                       (stop_time_.tv_usec - start_time_.tv_usec);
-- 
2.43.0


From b5e3061c1b689cbd8d56eac5c1f91b6f960f56d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:51 +0000
Subject: [PATCH 44/74] fix: do not write random data in front of a buffer of
 less than four bytes

---
 strtk.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 335cccc..8b1dafd 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -11927,9 +11927,15 @@ namespace strtk
 
       if (length > 0)
       {
-         itr -= (sizeof(unsigned int) - length);
-         x = reinterpret_cast<unsigned int*>(itr);
-         (*x) = rnd();
+         const unsigned int value = rnd();
+
+         if (itr != data)
+         {
+            itr -= (sizeof(unsigned int) - length);
+            length = sizeof(unsigned int);
+         }
+
+         std::memcpy(itr,&value,length);
       }
    }
 
-- 
2.43.0


From d1bc477060e7818e06762975e94cd9d7952a483b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:51 +0000
Subject: [PATCH 45/74] fix: skip the requested number of values of a
 uniform_real_rng

---
 strtk.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strtk.hpp b/strtk.hpp
index 8b1dafd..e3908ed 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -12013,7 +12013,7 @@ namespace strtk
       : rng_(static_cast<rng_type::result_type>(seed)),
         rnd_(rng_,boost::uniform_real<double>(0.0,1.0))
       {
-         while (pregen--) rng_();
+         while (pregen--) rnd_.engine()();
       }
 
       inline double operator()()
-- 
2.43.0


From f7c9e7a5c9affab9208e12ce277b42041b31bf5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:51 +0000
Subject: [PATCH 46/74] fix: keep random indices in range when the generator
 yields its maximum of 1

---
 strtk.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index e3908ed..7d1ee3b 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -12070,7 +12070,7 @@ namespace strtk
       for (std::size_t i = 0; i < size; index.push_back(i++)) ;
       while (!index.empty())
       {
-         std::size_t idx = static_cast<std::size_t>(index.size() * rng());
+         const std::size_t idx = std::min(static_cast<std::size_t>(index.size() * rng()),index.size() - 1);
          (*out) = *(begin + index[idx]);
          index.erase(index.begin() + idx);
          ++out;
@@ -12117,7 +12117,7 @@ namespace strtk
       for (std::size_t i = 0; i < size; index.push_back(i++)) ;
       while (set_size)
       {
-         std::size_t idx = static_cast<std::size_t>(index.size() * rng());
+         const std::size_t idx = std::min(static_cast<std::size_t>(index.size() * rng()),index.size() - 1);
          (*out) = *(begin + index[idx]);
          index.erase(index.begin() + idx);
          ++out;
@@ -12190,7 +12190,7 @@ namespace strtk
       {
          if (rng() < (k / n))
          {
-            selection[static_cast<std::size_t>(rng() * k)] = (*itr);
+            selection[std::min(static_cast<std::size_t>(rng() * k),k - 1)] = (*itr);
          }
 
          ++itr;
-- 
2.43.0


From c5ac91b8567bd0c3fa3230d87e36f05aef41503b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:51 +0000
Subject: [PATCH 47/74] fix: always select an element when picking one at
 random

---
 strtk.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strtk.hpp b/strtk.hpp
index 7d1ee3b..d309cdf 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -12220,7 +12220,7 @@ namespace strtk
 
       while (end != itr)
       {
-         if (rng() < (1.0 / ++n))
+         if ((rng() < (1.0 / ++n)) || (1 == n))
          {
             selection = (*itr);
          }
-- 
2.43.0


From a5d5059b4482364add80493a1b7ac9395186ac46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:33 +0000
Subject: [PATCH 48/74] fix: do not read past the offset list of a used up
 offset_predicate

---
 strtk.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/strtk.hpp b/strtk.hpp
index d309cdf..a23b5fb 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -3916,6 +3916,11 @@ namespace strtk
 
       inline int next() const
       {
+         if (current_index_ >= offset_list_size)
+         {
+            return 0;
+         }
+
          int result = offset_list_[current_index_++];
 
          if (rotate_ && (current_index_ >= offset_list_size))
-- 
2.43.0


From 837283c839437ddb745dc61a9bba9829d47e327d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:33 +0000
Subject: [PATCH 49/74] fix: do not read past the end of a token shorter than a
 filter_on_match pattern

---
 strtk.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index a23b5fb..df1b24c 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -7802,7 +7802,7 @@ namespace strtk
             if (
                  (case_insensitive_ &&
                  (imatch(to_ptr((*itr)), to_ptr((*itr)) + (*itr).size(), range.first,range.second))) ||
-                 (!case_insensitive_ && std::equal((*itr).begin(), (*itr).end(), range.first))
+                 (!case_insensitive_ && equal((*itr).begin(), (*itr).end(), range.first, range.second))
                )
             {
                if (allow_through_on_match_)
@@ -7827,7 +7827,7 @@ namespace strtk
             if (
                  (case_insensitive_ &&
                  (imatch((*itr).begin(),(*itr).end(),s.begin(),s.end()))) ||
-                 (!case_insensitive_ && std::equal((*itr).begin(),(*itr).end(),s.begin()))
+                 (!case_insensitive_ && equal((*itr).begin(), (*itr).end(), s.begin(), s.end()))
                )
             {
                if (allow_through_on_match_)
@@ -7849,6 +7849,14 @@ namespace strtk
 
       filter_on_match& operator=(const filter_on_match& fom);
 
+      template <typename Iterator1, typename Iterator2>
+      static inline bool equal(const Iterator1 begin1, const Iterator1 end1,
+                               const Iterator2 begin2, const Iterator2 end2)
+      {
+         return (std::distance(begin1,end1) == std::distance(begin2,end2)) &&
+                std::equal(begin1,end1,begin2);
+      }
+
    private:
 
       bool case_insensitive_;
-- 
2.43.0


From b8db1dcc0629cd97c96f25b1f5eca5dd0791d1cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:33 +0000
Subject: [PATCH 50/74] fix: hold back matching strings in a filter_on_match
 that excludes matches

---
 strtk.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/strtk.hpp b/strtk.hpp
index df1b24c..9099f42 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -7833,8 +7833,9 @@ namespace strtk
                if (allow_through_on_match_)
                {
                   predicate_(s);
-                  return;
                }
+
+               return;
             }
          }
 
-- 
2.43.0


From dec9f327a0937af21fa7bd21d23801cda5b5feb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:34 +0000
Subject: [PATCH 51/74] fix: let filter_on_wildcard_match pass what it is asked
 to pass

---
 strtk.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 9099f42..96cfcdf 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -7754,7 +7754,7 @@ namespace strtk
       template <typename Iterator>
       inline void operator() (const std::pair<Iterator,Iterator>& range) const
       {
-         if (match(match_pattern_.begin(),match_pattern_.end(),range.first,range.second,'*','?') ^ allow_through_on_match_)
+         if (match(match_pattern_.begin(),match_pattern_.end(),range.first,range.second,'*','?') == allow_through_on_match_)
          {
             predicate_(range);
          }
@@ -7762,7 +7762,7 @@ namespace strtk
 
       inline void operator() (const std::string& s) const
       {
-         if (match(match_pattern_,s) ^ allow_through_on_match_)
+         if (match(match_pattern_,s) == allow_through_on_match_)
          {
             predicate_(s);
          }
-- 
2.43.0


From a7eba236d63bd915e57c72bc58d1fd0e0a7bc192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:34 +0000
Subject: [PATCH 52/74] fix: do not read past the data when the text after a *
 wildcard is missing

---
 strtk.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/strtk.hpp b/strtk.hpp
index 96cfcdf..95e7e7b 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -1945,6 +1945,9 @@ namespace strtk
                   ++d_itr;
                }
 
+               if (d_itr == data_end)
+                  return false;
+
                ++d_itr;
             }
             else if ((*p_itr == match_zero_or_one) || Comparator::cmp(*p_itr, *d_itr))
-- 
2.43.0


From d8af4eb8b4ddaa5568736454346ac537a0d65edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:36 +0000
Subject: [PATCH 53/74] fix: report a value that could not be written as text
 instead of passing off what there is of it

An allocation that fails while a value is streamed sets the badbit, the
truncated text was then returned as the result of type_to_string.
---
 strtk.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/strtk.hpp b/strtk.hpp
index 95e7e7b..28ef673 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -17971,6 +17971,8 @@ namespace strtk
                std::stringstream ss;
                precision<T>::set(ss);
                ss << t;
+               if (!ss.good())
+                  return false;
                s = ss.str();
             }
             catch (const std::exception&)
-- 
2.43.0


From 13965bdbc47cd21726f23e29cb3f153537bd9e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:36 +0000
Subject: [PATCH 54/74] fix: move overlapping characters with memmove in
 text::insert and text::remove

---
 strtk.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 28ef673..5903ccb 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -15685,7 +15685,7 @@ namespace strtk
       {
          if (index >= s.size())
             return;
-         std::memcpy(const_cast<char*>(to_ptr(s) + index), const_cast<char*>(to_ptr(s) + (index + 1)), s.size() - index);
+         std::memmove(const_cast<char*>(to_ptr(s) + index), const_cast<char*>(to_ptr(s) + (index + 1)), s.size() - index);
          s.resize(s.size() - 1);
       }
 
@@ -15699,7 +15699,7 @@ namespace strtk
       inline void insert_inplace(std::string& s, const std::size_t& index, const char c)
       {
          s.resize(s.size() + 1);
-         std::memcpy(const_cast<char*>(to_ptr(s) + index + 1), const_cast<char*>(to_ptr(s) + (index)), s.size() - index);
+         std::memmove(const_cast<char*>(to_ptr(s) + index + 1), const_cast<char*>(to_ptr(s) + (index)), s.size() - index);
          s[index] = c;
       }
 
-- 
2.43.0


From 8d8fc3ce5bb90062ac6a5de569357aa2419d92ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:36 +0000
Subject: [PATCH 55/74] fix: keep remove_duplicates within its table for
 characters above 0x7F

---
 strtk.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 5903ccb..9ae02b4 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -1450,16 +1450,16 @@ namespace strtk
 
    inline std::string remove_duplicates(const std::string& str)
    {
-      std::string::value_type table[0xFF];
-      std::fill_n(table,0xFF,static_cast<char>(0));
+      std::string::value_type table[0x100];
+      std::fill_n(table,0x100,static_cast<char>(0));
       std::string result;
       result.reserve(str.size());
       for (std::size_t i = 0; i < str.size(); ++i)
       {
          const char c = str[i];
-         if (0 == table[static_cast<std::size_t>(c)])
+         if (0 == table[static_cast<unsigned char>(c)])
          {
-            table[static_cast<std::size_t>(c)] = 0x01;
+            table[static_cast<unsigned char>(c)] = 0x01;
             result += c;
          }
       }
-- 
2.43.0


From 97a5afaf18d2a064a7d68e0544adcbda4e9685d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:36 +0000
Subject: [PATCH 56/74] fix: keep translation_table within its table for
 characters above 0x7F

---
 strtk.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 9ae02b4..30e41a8 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -11885,13 +11885,13 @@ namespace strtk
 
          for (std::size_t i = 0; i < itable.size(); ++i)
          {
-            table_[static_cast<unsigned int>(itable[i])] = static_cast<unsigned char>(otable[i]);
+            table_[static_cast<unsigned char>(itable[i])] = static_cast<unsigned char>(otable[i]);
          }
       }
 
       inline char operator()(const char c) const
       {
-         return static_cast<char>(table_[static_cast<unsigned int>(c)]);
+         return static_cast<char>(table_[static_cast<unsigned char>(c)]);
       }
 
       inline unsigned char operator()(const unsigned char c) const
-- 
2.43.0


From 737e81d8d500b76f0514185c2f1d9ffcbf81ab92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:52 +0000
Subject: [PATCH 57/74] fix: compute bloom filter parameters for very small
 probabilities

For a false positive probability below the precision of 1.0 the logarithm is
zero, the number of bits came out as minus infinity, and was converted to an
arbitrary table size. Probabilities for which no size exists are refused.
---
 strtk.hpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 30e41a8..bc42db3 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -20245,17 +20245,25 @@ namespace strtk
             {
                double numerator   = -k * projected_element_count;
                double denominator = std::log(1.0 - std::pow(false_positive_probability, 1.0 / k));
-               curr_m = numerator / denominator;
 
-               if (curr_m < min_m)
+               if (denominator < 0.0)
                {
-                  min_m = curr_m;
-                  min_k = k;
+                  curr_m = numerator / denominator;
+
+                  if (curr_m < min_m)
+                  {
+                     min_m = curr_m;
+                     min_k = k;
+                  }
                }
 
                k += 1.0;
             }
 
+            //Either no probability, or more bits than can be counted.
+            if ((0.0 == min_k) || (min_m >= 9223372036854775808.0))
+               return false;
+
             optimal_parameters_t& optp = optimal_parameters;
 
             optp.number_of_hashes = static_cast<unsigned int>(min_k);
-- 
2.43.0


From 7eca6f056235d02dceafc182ef28c9078b502dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:03 +0000
Subject: [PATCH 58/74] fix: generate bloom filter salts without the
 process-wide rand

Filters with more than 128 hash functions seeded and drew from rand(), so
that filters created by other threads, or a caller's own use of rand, gave
different salts for the same parameters, and creating a filter reset the
caller's sequence.
---
 strtk.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index bc42db3..1458f7a 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -20744,11 +20744,13 @@ namespace strtk
             else
             {
                std::copy(predef_salt,predef_salt + predef_salt_count,std::back_inserter(salt_));
-               srand(static_cast<unsigned int>(random_seed_));
+               unsigned long long int state = random_seed_;
 
                while (salt_.size() < salt_count_)
                {
-                  bloom_type current_salt = static_cast<bloom_type>(rand()) * static_cast<bloom_type>(rand());
+                  state = state * 6364136223846793005ULL + 1442695040888963407ULL;
+
+                  const bloom_type current_salt = static_cast<bloom_type>(state >> 32);
 
                   if (0 == current_salt) continue;
                   if (salt_.end() == std::find(salt_.begin(), salt_.end(), current_salt))
-- 
2.43.0


From 16046c0156d3c91586db1d071f4a1d5ecf9c6f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:50 +0000
Subject: [PATCH 59/74] fix: n_choose_k fills its table before any call uses
 it, not while calls share it

---
 strtk.hpp | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 1458f7a..7abd1d9 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -12604,14 +12604,30 @@ namespace strtk
 
       static const std::size_t static_table_dim = 100;
       static const std::size_t static_table_size = static_cast<std::size_t>((static_table_dim * static_table_dim) / 2);
-      static value_type static_table[static_table_size];
-      static bool static_table_initialized = false;
 
-      if (!static_table_initialized && (n <= static_table_dim))
+      // Complete from the start, so that calls made at the same time only read it.
+      class complete_table
       {
-         std::fill_n(static_table,static_table_size,0);
-         static_table_initialized = true;
-      }
+      public:
+
+         complete_table()
+         {
+            std::fill_n(data,static_table_size,0);
+            n_choose_k_impl impl(data,static_table_dim);
+
+            for (value_type i = 0; i < static_table_dim; ++i)
+            {
+               for (value_type j = 0; j <= (i / 2); ++j)
+               {
+                  impl.lookup(i,j) = impl.compute(i,j);
+               }
+            }
+         }
+
+         value_type data[static_table_size];
+      };
+
+      static complete_table static_table;
 
       const std::size_t table_size = static_cast<std::size_t>(n * (n / 2) + (n & 1));
 
@@ -12619,7 +12635,7 @@ namespace strtk
       value_type* table = 0;
 
       if (table_size <= static_table_size)
-         table = static_table;
+         table = static_table.data;
       else
       {
          dimension = n;
@@ -12629,7 +12645,7 @@ namespace strtk
 
       value_type result = n_choose_k_impl(table,dimension).compute(n,k);
 
-      if (table != static_table)
+      if (table != static_table.data)
          delete [] table;
 
       return result;
-- 
2.43.0


From ace67d7a20805fee1ef708e73c6503f9f603fa6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:47 +0000
Subject: [PATCH 60/74] fix: hamming_distance_elementwise steps through its
 ranges instead of comparing the first elements for ever

---
 strtk.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/strtk.hpp b/strtk.hpp
index 7abd1d9..57c08cd 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -5207,6 +5207,9 @@ namespace strtk
       {
          if ((*itr1) != (*itr2))
             ++distance;
+
+         ++itr1;
+         ++itr2;
       }
 
       return distance;
-- 
2.43.0


From 7e48a8d46a9e8a46165e5251cded5c09f1289bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:38 +0000
Subject: [PATCH 61/74] fix: first_non_repeated_char indexes its table by the
 byte value, also for bytes above 127

---
 strtk.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strtk.hpp b/strtk.hpp
index 57c08cd..fb9e42d 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -4361,7 +4361,7 @@ namespace strtk
 
       while (end != itr)
       {
-         unsigned long long int& element = lut[static_cast<unsigned int>(*itr)];
+         unsigned long long int& element = lut[static_cast<unsigned char>(*itr)];
 
          if (not_yet_encountered == element)
          {
-- 
2.43.0


From e770edd04220c10f735d366c90a43590fbcefdbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:48 +0000
Subject: [PATCH 62/74] fix: convert_base64_to_bin does not look for padding in
 front of a short input

---
 strtk.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index fb9e42d..f8a10ef 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -4691,9 +4691,9 @@ namespace strtk
 
       const unsigned char* end_itr = end;
 
-      if ('=' == *(end - 2))
+      if (((end - begin) > 1) && ('=' == *(end - 2)))
          end_itr = end - 2;
-      else if ('=' == *(end - 1))
+      else if ((end != begin) && ('=' == *(end - 1)))
          end_itr = end - 1;
 
       const std::size_t length = std::distance(begin,end_itr);
-- 
2.43.0


From d1ff16636ccbd2cc890e9ba071bfd68b121e38e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:48 +0000
Subject: [PATCH 63/74] fix: hex_to_number_sink reports digits that do not fit,
 whatever it converted before

---
 strtk.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/strtk.hpp b/strtk.hpp
index f8a10ef..66d74b8 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -14984,7 +14984,10 @@ namespace strtk
          if ((size > 2) && ((*s.first) == '0') && (((*(s.first + 1)) == 'x') || ((*(s.first + 1)) == 'X')))
             offset = 2;
          if ((size - offset) > (2 * sizeof(T)))
+         {
+            valid_ = false;
             return (*this);
+         }
 
          const std::size_t buffer_size = 2 * sizeof(T);
          const std::size_t buffer_offset = ((size - offset) % 2);
-- 
2.43.0


From 6cdc71b3d90282f67116226fb6c45786152d2775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:48 +0000
Subject: [PATCH 64/74] fix: base64_to_number_sink stays within its number and
 reports what it converted

---
 strtk.hpp | 40 +++++++++++++++++++++++++---------------
 1 file changed, 25 insertions(+), 15 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 66d74b8..cec102a 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -15083,33 +15083,43 @@ namespace strtk
 
       inline base64_to_number_sink& operator=(const std::string& s)
       {
-         if (!range_only_contains(base64_value_check(), to_ptr(s), to_ptr(s) + s.size()))
-         {
-            valid_ = false;
-            return (*this);
-         }
-
-         (*t_) = T(0);
-
-         convert_base64_to_bin(to_ptr(s), to_ptr(s) + s.size(), reinterpret_cast<char*>(t_));
-         reverse_bytes();
-
-         return (*this);
+         return this->operator =(std::make_pair(to_ptr(s), to_ptr(s) + s.size()));
       }
 
       template <typename InputIterator>
       inline base64_to_number_sink& operator=(const std::pair<InputIterator,InputIterator>& s)
       {
-         if (!range_only_contains(base64_value_check(),s.first,s.second))
+         // Decoded, every four characters are three bytes.
+         static const std::size_t max_size = 4 * ((sizeof(T) + 2) / 3);
+
+         valid_ = false;
+
+         const std::size_t size = std::distance(s.first,s.second);
+
+         if (
+              (0 == size)       ||
+              (max_size < size) ||
+              !range_only_contains(base64_value_check(),s.first,s.second)
+            )
          {
-            valid_ = false;
             return (*this);
          }
 
+         char input [max_size    ];
+         char output[max_size + 1];
+
+         std::copy(s.first, s.second, input);
+
+         const std::size_t length = convert_base64_to_bin(input, input + size, output);
+
+         if (sizeof(T) < length)
+            return (*this);
+
          (*t_) = T(0);
 
-         convert_base64_to_bin(s.first, s.second,reinterpret_cast<char*>(t_));
+         std::copy(output, output + length, reinterpret_cast<char*>(t_));
          reverse_bytes();
+         valid_ = true;
 
          return (*this);
       }
-- 
2.43.0


From 074f07309048d48e549b9aad26e7a6f1898b2ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:39 +0000
Subject: [PATCH 65/74] fix: decimal_sink does not read a fraction from behind
 a token that has none

---
 strtk.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/strtk.hpp b/strtk.hpp
index cec102a..5b75578 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -15310,6 +15310,9 @@ namespace strtk
          if (0 == t_)
             return false;
 
+         if (end == itr)
+            return false;
+
          typedef typename strtk::details::real_type<T>::type real_t;
 
          bool negative = ('-' == (*itr));
@@ -15341,7 +15344,8 @@ namespace strtk
                return false;
          }
 
-         ++itr;
+         if (end != itr)
+            ++itr;
 
          length = std::min<std::size_t>(frac_size_,std::distance(itr,end));
          end_n  = itr + length;
-- 
2.43.0


From 7ac75c5632f632e29b6052d7a31233f18e6b1978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:03 +0000
Subject: [PATCH 66/74] fix: twoway_bitwise_interleave makes room for the bytes
 of both strings

---
 strtk.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strtk.hpp b/strtk.hpp
index 5b75578..7aacddc 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -4960,7 +4960,7 @@ namespace strtk
          return false;
       }
 
-      out.resize(str1.size());
+      out.resize(str1.size() + str2.size());
 
       return twoway_bitwise_interleave(to_ptr(str1), to_ptr(str1) + str1.size(),
                                        to_ptr(str2), to_ptr(str2) + str2.size(),
-- 
2.43.0


From 13cf7ba2d52a8384a83b90677ec89e64bc4fc288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:56 +0000
Subject: [PATCH 67/74] fix: lexicographically_canonicalize leaves an empty
 range alone

---
 strtk.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/strtk.hpp b/strtk.hpp
index 7aacddc..a114110 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -4281,6 +4281,9 @@ namespace strtk
       typedef typename std::list<iter_type> itr_list_type;
       itr_list_type itr_list;
 
+      if (begin == end)
+         return;
+
       type smallest = (*std::min_element(begin,end));
 
       for (Iterator itr = begin; itr != end; ++itr)
-- 
2.43.0


From 9c7d0c2cbd616854d63759863ca184c7ab9e6594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:32 +0000
Subject: [PATCH 68/74] fix: nth_combination_sequence of one element does not
 read in front of its index list

---
 strtk.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strtk.hpp b/strtk.hpp
index a114110..1fc8303 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -12705,7 +12705,7 @@ namespace strtk
          x -= j;
       }
 
-      index_list[k - 1] = index_list[k - 2] + static_cast<std::size_t>(n) - static_cast<std::size_t>(x);
+      index_list[k - 1] = ((1 < k) ? index_list[k - 2] : 0) + static_cast<std::size_t>(n) - static_cast<std::size_t>(x);
 
       for (std::size_t i = 0; i < index_list.size(); --index_list[i++]);
 
-- 
2.43.0


From 36352a2d7e8dd6483a14ac88cebd8f58c5b5b13e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:57 +0000
Subject: [PATCH 69/74] fix: numbers of a 64-bit long are read in the whole
 range in which they are written

---
 strtk.hpp | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 1fc8303..48cbdba 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -17059,10 +17059,12 @@ namespace strtk
       template<>
       struct numeric<long>
       {
-         static const unsigned int length       = 10;
-         static const unsigned int size         = 16;
-         static const unsigned int bound_length = 10;
-         static const long m10                  = 214748364;
+         // A long is as wide as either an int or a long long.
+         static const bool         wide         = (sizeof(long) > 4);
+         static const unsigned int length       = (wide ? 19 : 10);
+         static const unsigned int size         = (wide ? 24 : 16);
+         static const unsigned int bound_length = (wide ? 19 : 10);
+         static const long m10                  = static_cast<long>(wide ? 922337203685477580LL : 214748364LL);
          static const long ldpos                =  7;
          static const long ldneg                =  8;
       };
@@ -17070,10 +17072,11 @@ namespace strtk
       template<>
       struct numeric<unsigned long>
       {
-         static const unsigned int  length       = 10;
-         static const unsigned int  size         = 16;
-         static const unsigned int  bound_length = 10;
-         static const unsigned long m10          = 429496729;
+         static const bool          wide         = (sizeof(unsigned long) > 4);
+         static const unsigned int  length       = (wide ? 20 : 10);
+         static const unsigned int  size         = (wide ? 24 : 16);
+         static const unsigned int  bound_length = (wide ? 20 : 10);
+         static const unsigned long m10          = static_cast<unsigned long>(wide ? 1844674407370955161ULL : 429496729ULL);
          static const unsigned long ldpos        = 5;
       };
 
-- 
2.43.0


From cb76865d618ef1a97d1c174c918b27cb79d27c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:52 +0000
Subject: [PATCH 70/74] fix: string_condition begins_with and ends_with hold
 for texts longer than the string

---
 strtk.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 48cbdba..211131d 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -19752,7 +19752,7 @@ namespace strtk
 
       inline bool condition_begins_with(const itr_type begin, const itr_type end) const
       {
-         if (s.size() == static_cast<std::size_t>(std::distance(begin,end)))
+         if (s.size() <= static_cast<std::size_t>(std::distance(begin,end)))
          {
             return strtk::begins_with(s_begin, s_end, begin, end);
          }
@@ -19762,7 +19762,7 @@ namespace strtk
 
       inline bool condition_ends_with(const itr_type begin, const itr_type end) const
       {
-         if (s.size() == static_cast<std::size_t>(std::distance(begin,end)))
+         if (s.size() <= static_cast<std::size_t>(std::distance(begin,end)))
          {
             return strtk::ends_with(s_begin, s_end, begin, end);
          }
-- 
2.43.0


From cb8eb557841404f6340a6225c58b7f57d5b55bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:28 +0000
Subject: [PATCH 71/74] fix: set_array copies from a shorter array no more than
 that array holds

---
 strtk.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strtk.hpp b/strtk.hpp
index 211131d..484b888 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -24227,7 +24227,7 @@ namespace strtk
    {
       if (N < M)
          return false;
-      std::copy(src,src + N, &dest[0]);
+      std::copy(src,src + M, &dest[0]);
       if ((M < N) && pad)
          std::fill_n(&dest[M],N - M,padding);
       return true;
-- 
2.43.0


From 9c2634ba16e16978e21a51d5dfdae137b84be3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:59 +0000
Subject: [PATCH 72/74] fix: join_if of a sequence compiles

---
 strtk.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strtk.hpp b/strtk.hpp
index 484b888..96606df 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -11458,7 +11458,7 @@ namespace strtk
                               Predicate predicate,
                               const Sequence<T,Allocator>& sequence)
    {
-      return join(delimiter,predicate,sequence.begin(),sequence.end());
+      return join_if(delimiter,predicate,sequence.begin(),sequence.end());
    }
 
    template <typename T,
-- 
2.43.0


From 9575a6cbf05b0128c768c920ef361449efca9534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:59 +0000
Subject: [PATCH 73/74] fix: replace_pattern of ranges moves on in a plain
 output iterator

---
 strtk.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 96606df..75025bd 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -1870,9 +1870,9 @@ namespace strtk
          pos = std::distance(s_begin,temp_s_itr) - p_size;
          int diff = pos - prev_pos;
 
-         std::copy(s_itr,s_itr + diff, out);
+         out = std::copy(s_itr,s_itr + diff, out);
          s_itr = temp_s_itr;
-         std::copy(r_itr,r_end, out);
+         out = std::copy(r_itr,r_end, out);
 
          pos += p_size;
          prev_pos = pos;
-- 
2.43.0


From db6e390494faf27128f33473a6fcb50831818234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:59 +0000
Subject: [PATCH 74/74] fix: a range adapter of modifiable characters converts
 to their text

---
 strtk.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/strtk.hpp b/strtk.hpp
index 75025bd..e904c5e 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -986,6 +986,11 @@ namespace strtk
             return std::string(begin,end);
          }
 
+         static inline std::string stringify(char* begin, char* end)
+         {
+            return std::string(begin,end);
+         }
+
          iterator begin_;
          iterator end_;
       };
-- 
2.43.0

