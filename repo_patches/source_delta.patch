From 5b99c16e6e2e5596ea09e5977742c85de68ef650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:11 +0000
Subject: [PATCH 01/24] fix: read uncompressed records that are larger than the
 read buffer A record with 124 or more extra fields is larger than 1024 bytes,
 so no record fit in the buffer and the reader looped forever.

---
 spoc/io.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/spoc/io.h b/spoc/io.h
index f41f265..7ceb850 100644
--- a/spoc/io.h
+++ b/spoc/io.h
@@ -99,10 +99,6 @@ inline point_record::point_records read_uncompressed_points (std::istream &s,
     const size_t total_points,
     const size_t extra_fields)
 {
-    // Allocate the buffer
-    const size_t buffer_size = 1 * 1024;
-    std::vector<char> buffer (buffer_size);
-
     // Determine sizes
     const size_t struct_size =
         sizeof(double) // x
@@ -116,6 +112,10 @@ inline point_record::point_records read_uncompressed_points (std::istream &s,
         + sizeof(uint16_t); // b
     const size_t extra_size = extra_fields * sizeof(uint64_t);
     const size_t record_size = struct_size + extra_size;
+
+    // Allocate the buffer, it must hold at least one record
+    const size_t buffer_size = std::max (size_t (1 * 1024), record_size);
+    std::vector<char> buffer (buffer_size);
     const size_t records_per_buffer = buffer_size / record_size;
 
     // Allocate the records
-- 
2.43.0


From 81ec71c1a88a8fbf72b0322c74a01872ff6bf2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:11 +0000
Subject: [PATCH 02/24] fix: keep negative zeros in compressed files A column
 of negative zeros was taken to be all zero, left out of the file and read
 back as positive zeros.

---
 spoc/io.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spoc/io.h b/spoc/io.h
index 7ceb850..e479043 100644
--- a/spoc/io.h
+++ b/spoc/io.h
@@ -25,8 +25,9 @@ namespace io
 template<typename T>
 inline bool all_zero (const std::vector<T> &x)
 {
+    // Negative zero compares equal to zero, but it is not an all-zero value
     if (std::any_of (x.begin (), x.end (),
-        [](const T &i) { return i != 0; }))
+        [](const T &i) { return i != 0 || std::signbit (i); }))
         return false;
     return true;
 }
-- 
2.43.0


From 56d4b6945ece1dbb5f8a7035414d6007f6168ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:59 +0000
Subject: [PATCH 03/24] fix: reject truncated files Short reads of the header,
 point records and compressed fields went unnoticed, so a truncated file was
 read as if the missing bytes were zeros or stale buffer contents.

---
 spoc/header.h       | 4 +++-
 spoc/io.h           | 6 ++++++
 spoc/point_record.h | 2 ++
 3 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/spoc/header.h b/spoc/header.h
index c76d2ce..f30b7e1 100644
--- a/spoc/header.h
+++ b/spoc/header.h
@@ -154,7 +154,7 @@ inline header read_header (std::istream &s)
 {
     header h;
     s.read (reinterpret_cast<char*>(&h.signature), 4 * sizeof(char));
-    if (!h.check_signature ())
+    if (!s || !h.check_signature ())
         throw std::runtime_error ("Invalid spoc file format");
     s.read (reinterpret_cast<char*>(&h.major_version), sizeof(uint8_t));
     if (h.major_version != MAJOR_VERSION)
@@ -172,6 +172,8 @@ inline header read_header (std::istream &s)
     s.read (reinterpret_cast<char*>(&h.extra_fields), sizeof(uint8_t));
     s.read (reinterpret_cast<char*>(&h.total_points), sizeof(uint64_t));
     s.read (reinterpret_cast<char*>(&h.compressed), sizeof(uint8_t));
+    if (!s)
+        throw std::runtime_error ("Unexpected end of file while reading the header");
     return h;
 }
 
diff --git a/spoc/io.h b/spoc/io.h
index e479043..f2df980 100644
--- a/spoc/io.h
+++ b/spoc/io.h
@@ -76,6 +76,8 @@ inline std::vector<T> read_compressed (std::istream &s, const size_t size)
     // Get number of compressed bytes
     uint64_t n = 0;
     s.read (reinterpret_cast<char*>(&n), sizeof(uint64_t));
+    if (!s)
+        throw std::runtime_error ("Unexpected end of file while reading compressed data");
 
     // If a '0' was written, the vector is empty
     if (n == 0)
@@ -84,6 +86,8 @@ inline std::vector<T> read_compressed (std::istream &s, const size_t size)
     // Read compressed bytes
     std::vector<uint8_t> c (n);
     s.read (reinterpret_cast<char *> (&c[0]), n);
+    if (!s)
+        throw std::runtime_error ("Unexpected end of file while reading compressed data");
 
     // Decompress
     std::vector<T> x (size);
@@ -131,6 +135,8 @@ inline point_record::point_records read_uncompressed_points (std::istream &s,
             ? records_per_buffer
             : total_points - i;
         s.read (&buffer[0], total_records * record_size);
+        if (!s)
+            throw std::runtime_error ("Unexpected end of file while reading point records");
 
         // Convert from raw memory to record
         for (size_t j = 0; j < total_records; ++j)
diff --git a/spoc/point_record.h b/spoc/point_record.h
index c6353e3..4ff844e 100644
--- a/spoc/point_record.h
+++ b/spoc/point_record.h
@@ -158,6 +158,8 @@ inline point_record read_point_record (std::istream &s, const size_t extra_field
         + sizeof(uint16_t));
     if (p.extra.size () != 0)
         s.read (reinterpret_cast<char*>(&p.extra[0]), p.extra.size () * sizeof(uint64_t));
+    if (!s)
+        throw std::runtime_error ("Unexpected end of file while reading a point record");
     return p;
 }
 
-- 
2.43.0


From 96f7e31d52c24ef42794dee741f2aad90bbf3275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:45 +0000
Subject: [PATCH 04/24] fix: compress and decompress buffers of 4 GiB and more
 The byte count was truncated to the 32 bits of zlib's avail_in, and the rest
 of the input was silently dropped.

---
 spoc/compression.h | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/spoc/compression.h b/spoc/compression.h
index 2b4605e..1170261 100644
--- a/spoc/compression.h
+++ b/spoc/compression.h
@@ -1,8 +1,10 @@
 #pragma once
 
+#include <algorithm>
 #include <cassert>
 #include <cstdint>
 #include <iostream>
+#include <limits>
 #include <stdexcept>
 #include <string>
 #include <vector>
@@ -78,6 +80,9 @@ struct zlib_inflator
     }
 };
 
+// The most bytes that zlib can consume at once
+constexpr size_t MAX_INPUT_SIZE = std::numeric_limits<uInt>::max ();
+
 // Compress 'nbytes' pointed to by 'p'. The 'level' parameter can be 1
 // to 9, where 1 is the fastest, and 9 is the best compression. 0 means
 // no compression, and -1 means use the default compression.
@@ -90,14 +95,21 @@ inline std::vector<uint8_t> compress (const uint8_t *p, const size_t nbytes, con
     zlib_deflator deflator (level);
 
     // Get bytes directly from the input vector
-    deflator.s.avail_in = nbytes;
+    size_t remaining = nbytes;
     deflator.s.next_in = const_cast<unsigned char *> (p);
 
     do {
+        // The size of the input may not fit in zlib's byte count
+        if (deflator.s.avail_in == 0)
+        {
+            deflator.s.avail_in = std::min (remaining, MAX_INPUT_SIZE);
+            remaining -= deflator.s.avail_in;
+        }
+
         // Compress from input to output buffer
         deflator.s.avail_out = BUFFER_SIZE;
         deflator.s.next_out = &output_buffer[0];
-        deflate (&deflator.s, Z_FINISH);
+        deflate (&deflator.s, remaining == 0 ? Z_FINISH : Z_NO_FLUSH);
         const auto compressed_bytes = BUFFER_SIZE - deflator.s.avail_out;
 
         // Save compressed bytes
@@ -105,7 +117,7 @@ inline std::vector<uint8_t> compress (const uint8_t *p, const size_t nbytes, con
         output.insert (output.end (),
             output_buffer.begin (),
             output_buffer.begin () + compressed_bytes);
-    } while (deflator.s.avail_out == 0);
+    } while (deflator.s.avail_out == 0 || remaining != 0);
 
     return output;
 }
@@ -155,13 +167,21 @@ inline std::vector<uint8_t> decompress (const std::vector<uint8_t> &input)
     zlib_inflator inflator;
 
     // Get bytes directory from input vector
-    inflator.s.avail_in = input.size ();
+    size_t remaining = input.size ();
     inflator.s.next_in = const_cast<unsigned char *> (&input[0]);
 
+    int ret = Z_OK;
     do {
+        // The size of the input may not fit in zlib's byte count
+        if (inflator.s.avail_in == 0)
+        {
+            inflator.s.avail_in = std::min (remaining, MAX_INPUT_SIZE);
+            remaining -= inflator.s.avail_in;
+        }
+
         inflator.s.avail_out = BUFFER_SIZE;
         inflator.s.next_out = &output_buffer[0];
-        const auto ret = inflate (&inflator.s, Z_NO_FLUSH);
+        ret = inflate (&inflator.s, Z_NO_FLUSH);
         switch (ret)
         {
             // GCOV_EXCL_START
@@ -178,7 +198,7 @@ inline std::vector<uint8_t> decompress (const std::vector<uint8_t> &input)
         output.insert (output.end (),
             output_buffer.begin (),
             output_buffer.begin () + decompressed_bytes);
-    } while (inflator.s.avail_out == 0);
+    } while (ret != Z_STREAM_END && (inflator.s.avail_out == 0 || remaining != 0));
 
     return output;
 }
-- 
2.43.0


From 61174008db9b5ac1841dd224b46b9dab7bb5a077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:38 +0000
Subject: [PATCH 05/24] fix: reject truncated deflate streams Running out of
 input before the end of the deflate stream returned the partial output as if
 it were complete.

---
 spoc/compression.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/spoc/compression.h b/spoc/compression.h
index 1170261..10a3a10 100644
--- a/spoc/compression.h
+++ b/spoc/compression.h
@@ -200,6 +200,11 @@ inline std::vector<uint8_t> decompress (const std::vector<uint8_t> &input)
             output_buffer.begin () + decompressed_bytes);
     } while (ret != Z_STREAM_END && (inflator.s.avail_out == 0 || remaining != 0));
 
+    // GCOV_EXCL_START
+    if (ret != Z_STREAM_END)
+        throw std::runtime_error (zlib_error_string (Z_DATA_ERROR));
+    // GCOV_EXCL_STOP
+
     return output;
 }
 
@@ -229,7 +234,7 @@ inline void decompress (std::istream &is, std::ostream &os)
 
         // GCOV_EXCL_START
         if (inflator.s.avail_in == 0)
-            break;
+            throw std::runtime_error (zlib_error_string (Z_DATA_ERROR));
         // GCOV_EXCL_STOP
 
         inflator.s.next_in = &input_buffer[0];
-- 
2.43.0


From 29bea59c4ff672f699cb663d1d9c1074a5fe957e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:42 +0000
Subject: [PATCH 06/24] fix: make replace-not write the field it was given

Every field but the classification and the extra fields was left alone, and the classification was overwritten instead.
---
 apps/transform/transform.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/apps/transform/transform.h b/apps/transform/transform.h
index d043456..a4ae647 100644
--- a/apps/transform/transform.h
+++ b/apps/transform/transform.h
@@ -302,11 +302,11 @@ OP get_replace_not_op (const std::string &field_name,
             switch (field_name[0])
             {
                 case 'c': p.c = r; break;
-                case 'p': p.c = r; break;
-                case 'i': p.c = r; break;
-                case 'r': p.c = r; break;
-                case 'g': p.c = r; break;
-                case 'b': p.c = r; break;
+                case 'p': p.p = r; break;
+                case 'i': p.i = r; break;
+                case 'r': p.r = r; break;
+                case 'g': p.g = r; break;
+                case 'b': p.b = r; break;
                 case 'e': // extra
                 {
                     assert (is_extra_field (field_name));
-- 
2.43.0


From 3c9c666ab401b6c6716ed9a6a0d6b87519bfcded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:42 +0000
Subject: [PATCH 07/24] fix: accept the noise commands of spoc_transform

The commands were declared and documented, but they were rejected as invalid options, and the documented -a option was not recognised.
---
 apps/transform/transform_cmd.h | 42 +++++++++++++++++++++++++++++++++-
 1 file changed, 41 insertions(+), 1 deletion(-)

diff --git a/apps/transform/transform_cmd.h b/apps/transform/transform_cmd.h
index addd80c..4b7acbc 100644
--- a/apps/transform/transform_cmd.h
+++ b/apps/transform/transform_cmd.h
@@ -100,7 +100,7 @@ inline args get_args (int argc, char **argv, const std::string &usage)
             {0, 0, 0, 0}
         };
 
-        int c = getopt_long(argc, argv, "hve", long_options, &option_index);
+        int c = getopt_long(argc, argv, "hvea:", long_options, &option_index);
         if (c == -1)
             break;
 
@@ -138,6 +138,26 @@ inline args get_args (int argc, char **argv, const std::string &usage)
                 args.commands.push_back (get_command ("copy-field", optarg));
                 break;
             }
+            case GAUSSIAN_NOISE:
+            {
+                args.commands.push_back (get_command ("gaussian-noise", optarg));
+                break;
+            }
+            case GAUSSIAN_NOISE_X:
+            {
+                args.commands.push_back (get_command ("gaussian-noise-x", optarg));
+                break;
+            }
+            case GAUSSIAN_NOISE_Y:
+            {
+                args.commands.push_back (get_command ("gaussian-noise-y", optarg));
+                break;
+            }
+            case GAUSSIAN_NOISE_Z:
+            {
+                args.commands.push_back (get_command ("gaussian-noise-z", optarg));
+                break;
+            }
             case QUANTIZE_XYZ:
             {
                 args.commands.push_back (get_command ("quantize-xyz", optarg));
@@ -193,6 +213,26 @@ inline args get_args (int argc, char **argv, const std::string &usage)
                 args.commands.push_back (get_command ("set", optarg));
                 break;
             }
+            case UNIFORM_NOISE:
+            {
+                args.commands.push_back (get_command ("uniform-noise", optarg));
+                break;
+            }
+            case UNIFORM_NOISE_X:
+            {
+                args.commands.push_back (get_command ("uniform-noise-x", optarg));
+                break;
+            }
+            case UNIFORM_NOISE_Y:
+            {
+                args.commands.push_back (get_command ("uniform-noise-y", optarg));
+                break;
+            }
+            case UNIFORM_NOISE_Z:
+            {
+                args.commands.push_back (get_command ("uniform-noise-z", optarg));
+                break;
+            }
         }
     }
 
-- 
2.43.0


From 3c75f3928f1647fb1d1bc0ca64ef76c0d3499653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:42 +0000
Subject: [PATCH 08/24] fix: quantize coordinates that do not fit in an int

The quotient was truncated by converting it to int, which is undefined for quotients outside of the range of int.
---
 apps/transform/transform.h | 7 ++++---
 spoc/utils.h               | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/apps/transform/transform.h b/apps/transform/transform.h
index a4ae647..2d98d41 100644
--- a/apps/transform/transform.h
+++ b/apps/transform/transform.h
@@ -3,6 +3,7 @@
 #include "spoc/app_utils.h"
 #include "spoc/spoc.h"
 #include <cassert>
+#include <cmath>
 #include <iostream>
 #include <limits>
 #include <random>
@@ -172,9 +173,9 @@ OP get_quantize_op (const double precision)
     OP op = [=] (PR p)
     {
         // Quantize the point
-        p.x = static_cast<int> (p.x / precision) * precision;
-        p.y = static_cast<int> (p.y / precision) * precision;
-        p.z = static_cast<int> (p.z / precision) * precision;
+        p.x = std::trunc (p.x / precision) * precision;
+        p.y = std::trunc (p.y / precision) * precision;
+        p.z = std::trunc (p.z / precision) * precision;
         return p;
     };
 
diff --git a/spoc/utils.h b/spoc/utils.h
index e7f8d63..2adefc9 100644
--- a/spoc/utils.h
+++ b/spoc/utils.h
@@ -1,5 +1,6 @@
 #pragma once
 #include "contracts.h"
+#include <cmath>
 #include <functional>
 
 namespace spoc
@@ -44,9 +45,9 @@ void quantize (T &p, const double precision)
     for (size_t i = 0; i < p.size (); ++i)
     {
         // Quantize the point
-        p[i].x = static_cast<int> (p[i].x / precision) * precision;
-        p[i].y = static_cast<int> (p[i].y / precision) * precision;
-        p[i].z = static_cast<int> (p[i].z / precision) * precision;
+        p[i].x = std::trunc (p[i].x / precision) * precision;
+        p[i].y = std::trunc (p[i].y / precision) * precision;
+        p[i].z = std::trunc (p[i].z / precision) * precision;
     }
 }
 
-- 
2.43.0


From 9914b04ce8623ab2295d3eeae02e9f45ae8e1c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:42 +0000
Subject: [PATCH 09/24] fix: refuse to write more extra fields than the header
 can hold

The header stores the number of extra fields in one byte. A larger number wrapped around, and the written file could not be read back.
---
 spoc/file.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spoc/file.h b/spoc/file.h
index 238df40..b81f573 100644
--- a/spoc/file.h
+++ b/spoc/file.h
@@ -147,6 +147,8 @@ class spoc_file
     {
         const size_t extra_fields = get_extra_fields ();
         const size_t total_points = prs.size ();
+        if (extra_fields > std::numeric_limits<uint8_t>::max ())
+            throw std::runtime_error ("The number of extra fields may not exceed 255");
         header::header h (major_version, minor_version, wkt, extra_fields, total_points, compressed);
 
         return h;
-- 
2.43.0


From aaeef0eb16d1498b602141fd1c9a3ba25c304e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:42 +0000
Subject: [PATCH 10/24] fix: reject get-field of an extra field that does not
 exist

The index was only checked by an assertion, release builds read out of bounds.
---
 apps/tool/tool.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/apps/tool/tool.h b/apps/tool/tool.h
index 75b7d6c..d3cb36e 100644
--- a/apps/tool/tool.h
+++ b/apps/tool/tool.h
@@ -54,7 +54,8 @@ inline void get_field (const T &f, std::ostream &os, const std::string &field_na
             case 'e': // extra
             {
                 assert (app_utils::is_extra_field (field_name));
-                assert (j < p.extra.size ());
+                if (j >= p.extra.size ())
+                    throw std::runtime_error ("Invalid extra field specification");
                 os << p.extra[j] << std::endl;
             }
             break;
-- 
2.43.0


From 4abad904a77f2ee9253501f8b01c253b7275bc03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:42 +0000
Subject: [PATCH 11/24] fix: check the values read by set-field

Text that is not a number was taken to be zero, and a last value without a newline was reported as missing.
---
 apps/tool/tool.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/apps/tool/tool.h b/apps/tool/tool.h
index d3cb36e..a5633ff 100644
--- a/apps/tool/tool.h
+++ b/apps/tool/tool.h
@@ -169,9 +169,13 @@ inline T set_field (const T &f, std::istream &field_ifs, const std::string &fiel
         else
             field_ifs >> f_size_t[i];
 
-        // Make sure there are still values to read
-        if (field_ifs.eof ())
-            throw std::runtime_error ("Reached end-of-file before reading all field values");
+        // Make sure a value was read
+        if (!field_ifs)
+        {
+            if (field_ifs.eof ())
+                throw std::runtime_error ("Reached end-of-file before reading all field values");
+            throw std::runtime_error ("Could not parse a field value");
+        }
     }
 
     // Copy points
-- 
2.43.0


From 95e3c54c791b19066a4840ec5a2dd9b3504c713c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:42 +0000
Subject: [PATCH 12/24] fix: report an extra field that only one of two files
 has as a difference

---
 apps/diff/diff.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/apps/diff/diff.h b/apps/diff/diff.h
index 38a82c7..a644699 100644
--- a/apps/diff/diff.h
+++ b/apps/diff/diff.h
@@ -149,9 +149,11 @@ inline int diff (const spoc::file::spoc_file &f1,
                 case '8':
                 case '9': {
                               const size_t index = field - '0';
-                              if (index < get_extra_fields_size (f1.get_point_records ())
-                                    && index < get_extra_fields_size (f2.get_point_records ())
-                                    && (get_extra (index, f1.get_point_records ()) != get_extra (index, f2.get_point_records ())))
+                              const bool has1 = index < get_extra_fields_size (f1.get_point_records ());
+                              const bool has2 = index < get_extra_fields_size (f2.get_point_records ());
+                              if (has1 != has2)
+                                  return_code = -1;
+                              else if (has1 && (get_extra (index, f1.get_point_records ()) != get_extra (index, f2.get_point_records ())))
                                   return_code = -1;
                               break;
                           }
-- 
2.43.0


From 16ac61499641dc88baac965dfd7a5e7063677001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:42 +0000
Subject: [PATCH 13/24] fix: reject any two of the exclusive spoc_diff options

---
 apps/diff/diff.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/diff/diff.cpp b/apps/diff/diff.cpp
index c349918..608d0cc 100644
--- a/apps/diff/diff.cpp
+++ b/apps/diff/diff.cpp
@@ -46,7 +46,7 @@ int main (int argc, char **argv)
             clog << "filename2\t'" << args.fn2 << "'" << endl;
         }
 
-        if (args.header_only + args.data_only + !args.fields.empty () > 2)
+        if (args.header_only + args.data_only + !args.fields.empty () > 1)
             throw runtime_error ("Can't specify more than 1 of 'header-only', 'data-only', and specific fields");
 
         if (args.verbose)
-- 
2.43.0


From 4796dca90f99ab160e29ea4b73db0976e1b6ff13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:42 +0000
Subject: [PATCH 14/24] fix: print 32 bit values in JSON output

The summaries of the class and point ID fields were printed as "unknown type".
---
 spoc/json.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/spoc/json.h b/spoc/json.h
index f681258..88e3b3e 100644
--- a/spoc/json.h
+++ b/spoc/json.h
@@ -20,6 +20,7 @@ namespace json
 //      char,
 //      uint8_t,
 //      uint16_t,
+//      uint32_t,
 //      uint64_t,
 //      float,
 //      double,
@@ -93,6 +94,10 @@ inline void pretty_print (std::ostream &s, const json::value &v, const int inden
     {
         s << std::any_cast<uint16_t> (v);
     }
+    else if (v.type () == typeid (uint32_t))
+    {
+        s << std::any_cast<uint32_t> (v);
+    }
     else if (v.type () == typeid (uint64_t))
     {
         s << std::any_cast<uint64_t> (v);
@@ -172,6 +177,8 @@ inline std::ostream &operator<< (std::ostream &s, const json::value &v)
         s << int (std::any_cast<uint8_t> (v));
     else if (v.type () == typeid (uint16_t))
         s << std::any_cast<uint16_t> (v);
+    else if (v.type () == typeid (uint32_t))
+        s << std::any_cast<uint32_t> (v);
     else if (v.type () == typeid (uint64_t))
         s << std::any_cast<uint64_t> (v);
     else if (v.type () == typeid (float))
-- 
2.43.0


From 25f16ddbd8e92351898e88ea7aa95fa8881aad39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:43 +0000
Subject: [PATCH 15/24] fix: count classes above the range of int in spoc_info

The class was converted to int and printed as a negative number.
---
 apps/info/info.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/apps/info/info.h b/apps/info/info.h
index 4942653..53f943c 100644
--- a/apps/info/info.h
+++ b/apps/info/info.h
@@ -15,7 +15,7 @@ namespace info_app
 template<typename T>
 inline std::map<std::string,size_t> get_class_count_map (const T &c)
 {
-    std::unordered_map<int,size_t> m;
+    std::unordered_map<uint32_t,size_t> m;
 
     // Count each classification
     //
@@ -323,7 +323,7 @@ inline void process (std::ostream &os,
 
             for (auto i : class_count_map)
             {
-                const auto j = std::stoi (i.first);
+                const auto j = std::stoul (i.first);
                 const auto l = class_map.find (j) == class_map.end ()
                     ? "undefined"
                     : class_map.at (j);
-- 
2.43.0


From 31ef77717eb3a5664daa51ef7f75354b85665f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:43 +0000
Subject: [PATCH 16/24] fix: reject malformed values in the list of replace-not

The rest of the list was silently dropped at the first value that could not be parsed, and the replacement value was taken from the middle of the list.
---
 spoc/app_utils.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/spoc/app_utils.h b/spoc/app_utils.h
index eef04f2..2af8e59 100644
--- a/spoc/app_utils.h
+++ b/spoc/app_utils.h
@@ -163,10 +163,9 @@ std::vector<unsigned> consume_ints (std::string &s)
     unsigned v = consume_int (s);
     vs.push_back (v);
     // Get the rest
-    while (true)
+    while (!s.empty ())
     {
-        try { v = consume_int (s); }
-        catch (...) { break; }
+        v = consume_int (s);
         vs.push_back (v);
     }
     return vs;
-- 
2.43.0


From 8f734e3047304cdc86a25d1f887e171e990eb075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:43 +0000
Subject: [PATCH 17/24] fix: report errors when writing SPOC files

A full disk or a closed pipe went unnoticed, and the tools returned success after writing an incomplete file.
---
 spoc/header.h       | 2 ++
 spoc/io.h           | 4 ++++
 spoc/point_record.h | 2 ++
 3 files changed, 8 insertions(+)

diff --git a/spoc/header.h b/spoc/header.h
index f30b7e1..33c5281 100644
--- a/spoc/header.h
+++ b/spoc/header.h
@@ -146,6 +146,8 @@ inline void write_header (std::ostream &s, const header &h)
     s.write (reinterpret_cast<const char*>(&h.total_points), sizeof(uint64_t));
     s.write (reinterpret_cast<const char*>(&h.compressed), sizeof(uint8_t));
     s.flush ();
+    if (!s)
+        throw std::runtime_error ("Could not write the header");
 }
 
 /// I/O function
diff --git a/spoc/io.h b/spoc/io.h
index f2df980..02d6417 100644
--- a/spoc/io.h
+++ b/spoc/io.h
@@ -378,6 +378,10 @@ inline void write_spoc_file_compressed (std::ostream &s, const spoc::file::spoc_
 
     for (size_t j = 0; j < extras.size (); ++j)
         write_compressed (s, extras[j]);
+
+    s.flush ();
+    if (!s)
+        throw std::runtime_error ("Could not write the compressed data");
 }
 
 /// Helper I/O function
diff --git a/spoc/point_record.h b/spoc/point_record.h
index 4ff844e..21e5205 100644
--- a/spoc/point_record.h
+++ b/spoc/point_record.h
@@ -141,6 +141,8 @@ inline void write_point_record (std::ostream &s, const point_record &p)
     if (p.extra.size () != 0)
         s.write (reinterpret_cast<const char*>(&p.extra[0]), p.extra.size () * sizeof(uint64_t));
     s.flush ();
+    if (!s)
+        throw std::runtime_error ("Could not write a point record");
 }
 
 // Record I/O
-- 
2.43.0


From 1405354af416d164d26e73ba63fdfc20baf18ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:39 +0000
Subject: [PATCH 18/24] fix: correct the documented options of spoc_tool and
 spoc_info

spoc_tool has no random seed, and the short form of metric-info is -m.
---
 apps/info/info.1.md | 2 +-
 apps/tool/tool.1.md | 5 +----
 2 files changed, 2 insertions(+), 5 deletions(-)

diff --git a/apps/info/info.1.md b/apps/info/info.1.md
index 27847fc..440f781 100644
--- a/apps/info/info.1.md
+++ b/apps/info/info.1.md
@@ -72,7 +72,7 @@ highest 25% of the values are spread out over the range 89 to 4088.
 \-\-classification-info, -l
 : Toggle classification information switch
 
-\-\-metric-info, -l
+\-\-metric-info, -m
 : Toggle metric information switch
 
 \-\-compact, -c
diff --git a/apps/tool/tool.1.md b/apps/tool/tool.1.md
index 656b435..3aad645 100644
--- a/apps/tool/tool.1.md
+++ b/apps/tool/tool.1.md
@@ -25,13 +25,10 @@ Collection of tools to run on a SPOC file
 \-\-version, -e
 :   Print version information and exit
 
-\-\-random-seed=*#*, -r *#*
-:   Set the random seed equal to *#*
-
 \-\-resolution=*#*
 :   Set the resolution used for upsampling
 
-\-\-field-filename=*FN*
+\-\-field-filename=*FN*, -f *FN*
 :   Set the filename of the text file used with the *set-field* command.
     This file (or named pipe) will contain newline separated values for
     the field being set.
-- 
2.43.0


From 872845a2d84154af869156fbfa081f0be9b2070c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:04 +0000
Subject: [PATCH 19/24] fix: do not form references into empty vectors

Reading a compressed file that declares no points but has a non-empty block,
and compressing or encoding an empty vector, formed a reference to the first
element of an empty vector, which optimizers may turn into a write.
---
 spoc/compression.h | 6 +++---
 spoc/io.h          | 2 +-
 spoc/point.h       | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/spoc/compression.h b/spoc/compression.h
index 10a3a10..4f8dec4 100644
--- a/spoc/compression.h
+++ b/spoc/compression.h
@@ -124,7 +124,7 @@ inline std::vector<uint8_t> compress (const uint8_t *p, const size_t nbytes, con
 
 inline std::vector<uint8_t> compress (const std::vector<uint8_t> &input, const int level = -1)
 {
-    return compress (&input[0], input.size (), level);
+    return compress (input.data (), input.size (), level);
 }
 
 inline void compress (std::istream &is, std::ostream &os, const int level)
@@ -168,7 +168,7 @@ inline std::vector<uint8_t> decompress (const std::vector<uint8_t> &input)
 
     // Get bytes directory from input vector
     size_t remaining = input.size ();
-    inflator.s.next_in = const_cast<unsigned char *> (&input[0]);
+    inflator.s.next_in = const_cast<unsigned char *> (input.data ());
 
     int ret = Z_OK;
     do {
@@ -215,7 +215,7 @@ inline void decompress (const std::vector<uint8_t> &input, uint8_t *output, cons
     if (d.size () != output_bytes)
         throw std::runtime_error ("Can't decompress: unexpected number of decompressed bytes");;
     // GCOV_EXCL_STOP
-    std::copy (&d[0], &d[0] + output_bytes, output);
+    std::copy (d.begin (), d.end (), output);
 }
 
 inline void decompress (std::istream &is, std::ostream &os)
diff --git a/spoc/io.h b/spoc/io.h
index 02d6417..ff28c2d 100644
--- a/spoc/io.h
+++ b/spoc/io.h
@@ -91,7 +91,7 @@ inline std::vector<T> read_compressed (std::istream &s, const size_t size)
 
     // Decompress
     std::vector<T> x (size);
-    spoc::compression::decompress (c, reinterpret_cast<uint8_t *> (&x[0]), x.size () * sizeof(T));
+    spoc::compression::decompress (c, reinterpret_cast<uint8_t *> (x.data ()), x.size () * sizeof(T));
 
     return x;
 }
diff --git a/spoc/point.h b/spoc/point.h
index 82048a7..4c2cc69 100644
--- a/spoc/point.h
+++ b/spoc/point.h
@@ -182,7 +182,7 @@ inline std::vector<uint8_t> encode_points (const std::vector<point<T>> &points)
     // Output bytes
     std::vector<uint8_t> bytes;
     // Encode the points (NOT PORTABLE)
-    const uint8_t *pd = reinterpret_cast<const uint8_t *> (&points[0]);
+    const uint8_t *pd = reinterpret_cast<const uint8_t *> (points.data ());
     bytes.insert (bytes.end (), pd, pd + points.size () * sizeof(point<T>));
     return bytes;
 }
@@ -196,7 +196,7 @@ inline std::vector<point<T>> decode_points (const std::vector<uint8_t> &bytes)
     // Decoded points
     std::vector<point<T>> points;
     // Decode the points (NOT PORTABLE)
-    const point<T> *pc = reinterpret_cast<const point<T> *> (&bytes[0]);
+    const point<T> *pc = reinterpret_cast<const point<T> *> (bytes.data ());
     const size_t total_points = bytes.size () / sizeof(point<T>);
     points.insert (points.end (), pc, pc + total_points);
     return points;
-- 
2.43.0


From b1f33411349643fa7a386e6ae9ed4028867bcf7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:02 +0000
Subject: [PATCH 20/24] fix: report errors when writing text output

spoc_info, spoc_srs and the get-field command ended successfully when
their output could not be written.
---
 apps/info/info.cpp | 5 +++++
 apps/srs/srs.cpp   | 5 +++++
 apps/tool/tool.cpp | 5 +++++
 3 files changed, 15 insertions(+)

diff --git a/apps/info/info.cpp b/apps/info/info.cpp
index 9121ba9..f340968 100644
--- a/apps/info/info.cpp
+++ b/apps/info/info.cpp
@@ -83,6 +83,11 @@ int main (int argc, char **argv)
             }
         }
 
+        // Make sure that everything was written
+        cout.flush ();
+        if (!cout)
+            throw runtime_error ("Could not write the output");
+
         return 0;
     }
     catch (const exception &e)
diff --git a/apps/srs/srs.cpp b/apps/srs/srs.cpp
index 52b4ac4..b899646 100644
--- a/apps/srs/srs.cpp
+++ b/apps/srs/srs.cpp
@@ -117,6 +117,11 @@ int main (int argc, char **argv)
             }
         }
 
+        // Make sure that everything was written
+        cout.flush ();
+        if (!cout)
+            throw runtime_error ("Could not write the output");
+
         return 0;
     }
     catch (const exception &e)
diff --git a/apps/tool/tool.cpp b/apps/tool/tool.cpp
index 8347f9a..76e9fc1 100644
--- a/apps/tool/tool.cpp
+++ b/apps/tool/tool.cpp
@@ -63,6 +63,11 @@ int main (int argc, char **argv)
             const auto l = consume_field_name (s);
             get_field (f, cout, l);
 
+            // Make sure that everything was written
+            cout.flush ();
+            if (!cout)
+                throw runtime_error ("Could not write the field values");
+
             // Short-circuit so that the SPOC file is not written
             return 0;
         }
-- 
2.43.0


From e70c28e1e25aeb8c03c33d39e63f2f3d816c3386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:40 +0000
Subject: [PATCH 21/24] fix: do not loop forever when a stream to compress
 fails

Compressing a stream that failed without reaching its end, such as a file
that could not be opened, never returned.
---
 spoc/compression.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/spoc/compression.h b/spoc/compression.h
index 4f8dec4..a2bec13 100644
--- a/spoc/compression.h
+++ b/spoc/compression.h
@@ -138,6 +138,11 @@ inline void compress (std::istream &is, std::ostream &os, const int level)
     do {
         // Read into buffer from stream
         is.read (reinterpret_cast<char *> (&input_buffer[0]), BUFFER_SIZE);
+        // A stream that fails never gets to its end
+        // GCOV_EXCL_START
+        if (!is && !is.eof ())
+            throw std::runtime_error (zlib_error_string (Z_ERRNO));
+        // GCOV_EXCL_STOP
         deflator.s.avail_in = is.gcount();
         deflator.s.next_in = &input_buffer[0];
 
-- 
2.43.0


From 5b9e8124000f978d75d13721e771a216c79dc975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:29 +0000
Subject: [PATCH 22/24] fix: do not divide by the size of a flat extent when
 rescaling

The quotient is not a number there, and converting it to an integer is
undefined.
---
 spoc/extent.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/spoc/extent.h b/spoc/extent.h
index 7e8c762..5a961b9 100644
--- a/spoc/extent.h
+++ b/spoc/extent.h
@@ -110,9 +110,10 @@ inline spoc::point::point<uint64_t> rescale (const spoc::point::point<double> &p
     const spoc::point::point<double> &minp)
 {
     spoc::point::point<uint64_t> q;
-    q.x = (p.x - minp.x) * max_value / s.x;
-    q.y = (p.y - minp.y) * max_value / s.y;
-    q.z = (p.z - minp.z) * max_value / s.z;
+    // There is nothing to scale along an axis that has no extent
+    q.x = s.x == 0.0 ? 0 : (p.x - minp.x) * max_value / s.x;
+    q.y = s.y == 0.0 ? 0 : (p.y - minp.y) * max_value / s.y;
+    q.z = s.z == 0.0 ? 0 : (p.z - minp.z) * max_value / s.z;
     return q;
 }
 
-- 
2.43.0


From 75b417481c2b2b60b7323d978562cdc66cf828e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:22 +0000
Subject: [PATCH 23/24] fix: spoc_diff --version asked for filenames instead of
 printing the version

---
 apps/diff/diff_cmd.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/apps/diff/diff_cmd.h b/apps/diff/diff_cmd.h
index ed73ba7..644d518 100644
--- a/apps/diff/diff_cmd.h
+++ b/apps/diff/diff_cmd.h
@@ -72,6 +72,10 @@ inline args get_args (int argc, char **argv, const std::string &usage)
         }
     }
 
+    // The filenames are not needed for printing the version
+    if (args.version)
+        return args;
+
     // Get input filenames
     if (optind == argc)
         throw std::runtime_error ("No input filename 1 was specified");
-- 
2.43.0


From 09278269b8166ef05e026cc9cc570a8d18a687d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:15 +0000
Subject: [PATCH 24/24] fix: malformed numeric and field arguments were misread
 instead of rejected

---
 apps/filter/filter.h           |  5 ++++-
 apps/filter/filter_cmd.h       | 18 +++++++++++++----
 apps/merge/merge_cmd.h         |  2 +-
 apps/tile/tile_cmd.h           | 17 ++++++++++++-----
 apps/tool/tool.cpp             |  6 +++++-
 apps/tool/tool_cmd.h           |  2 +-
 apps/transform/transform_cmd.h |  2 +-
 spoc/app_utils.h               | 26 +++++++++++++++++++------
 spoc/cmd.h                     | 35 ++++++++++++++++++++++++++++++++++
 9 files changed, 93 insertions(+), 20 deletions(-)

diff --git a/apps/filter/filter.h b/apps/filter/filter.h
index 86965b2..0241db1 100644
--- a/apps/filter/filter.h
+++ b/apps/filter/filter.h
@@ -146,7 +146,10 @@ inline T remove_coords (const T &f, const std::string &op)
     double compare_value = std::numeric_limits<double>::quiet_NaN();
     try
     {
-        compare_value = std::stod(ops[2]);
+        size_t sz = 0;
+        compare_value = std::stod(ops[2], &sz);
+        if (sz != ops[2].size())
+            throw std::runtime_error("Unexpected characters");
     }
     catch (const std::exception &e)
     {
diff --git a/apps/filter/filter_cmd.h b/apps/filter/filter_cmd.h
index 73ac6ac..7d77278 100644
--- a/apps/filter/filter_cmd.h
+++ b/apps/filter/filter_cmd.h
@@ -1,6 +1,7 @@
 #pragma once
 
 #include "spoc/cmd.h"
+#include <cstdint>
 #include <set>
 #include <stdexcept>
 #include <string>
@@ -28,6 +29,15 @@ struct args
     std::string output_fn;
 };
 
+// Classifications are 32 bit unsigned values
+inline int parse_class (const std::string &s)
+{
+    const long v = spoc::cmd::parse_long (s);
+    if (v < 0 || v > std::numeric_limits<uint32_t>::max ())
+        throw std::runtime_error ("Classification is out of range: " + s);
+    return static_cast<int> (v);
+}
+
 inline args get_args (int argc, char **argv, const std::string &usage)
 {
     args args;
@@ -65,11 +75,11 @@ inline args get_args (int argc, char **argv, const std::string &usage)
             }
             case 'v': { args.verbose = true; break; }
             case 'e': { args.version = true; break; }
-            case 'k': { args.keep_classes.insert (std::atoi (optarg)); break; }
-            case 'a': { args.random_seed = std::atol (optarg); break; }
-            case 'r': { args.remove_classes.insert (std::atoi (optarg)); break; }
+            case 'k': { args.keep_classes.insert (parse_class (optarg)); break; }
+            case 'a': { args.random_seed = spoc::cmd::parse_long (optarg); break; }
+            case 'r': { args.remove_classes.insert (parse_class (optarg)); break; }
             case 'u': { args.unique_xyz = true; break; }
-            case 's': { args.subsample = std::atof (optarg); break; }
+            case 's': { args.subsample = spoc::cmd::parse_double (optarg); break; }
             case 'c': { args.remove_coords = std::string (optarg); break; }
         }
     }
diff --git a/apps/merge/merge_cmd.h b/apps/merge/merge_cmd.h
index a460eb6..d1ee79e 100644
--- a/apps/merge/merge_cmd.h
+++ b/apps/merge/merge_cmd.h
@@ -55,7 +55,7 @@ inline args get_args (int argc, char **argv, const std::string &usage)
             case 'v': args.verbose = true; break;
             case 'e': args.version = true; break;
             case 'q': args.quiet = !args.quiet; break;
-            case 'p': args.point_id = std::atoi (optarg); break;
+            case 'p': args.point_id = spoc::cmd::parse_int (optarg); break;
         }
     }
 
diff --git a/apps/tile/tile_cmd.h b/apps/tile/tile_cmd.h
index baec061..5723313 100644
--- a/apps/tile/tile_cmd.h
+++ b/apps/tile/tile_cmd.h
@@ -64,11 +64,18 @@ inline args get_args (int argc, char **argv, const std::string &usage)
             case 'v': args.verbose = true; break;
             case 'e': args.version = true; break;
             case 'f': args.force = true; break;
-            case 't': args.tiles = atoi (optarg); break;
-            case 'd': args.digits = atoi (optarg); break;
-            case 's': args.tile_size = atof (optarg); break;
-            case 'x': args.tile_size_x = atof (optarg); break;
-            case 'y': args.tile_size_y = atof (optarg); break;
+            case 't':
+            {
+                const int n = spoc::cmd::parse_int (optarg);
+                if (n < 1)
+                    throw std::runtime_error ("The number of tiles must be > 0");
+                args.tiles = n;
+                break;
+            }
+            case 'd': args.digits = spoc::cmd::parse_int (optarg); break;
+            case 's': args.tile_size = spoc::cmd::parse_double (optarg); break;
+            case 'x': args.tile_size_x = spoc::cmd::parse_double (optarg); break;
+            case 'y': args.tile_size_y = spoc::cmd::parse_double (optarg); break;
             case 'p': args.prefix = std::string (optarg); break;
         }
     }
diff --git a/apps/tool/tool.cpp b/apps/tool/tool.cpp
index 76e9fc1..2e667ec 100644
--- a/apps/tool/tool.cpp
+++ b/apps/tool/tool.cpp
@@ -61,6 +61,8 @@ int main (int argc, char **argv)
         {
             string s = args.command.params;
             const auto l = consume_field_name (s);
+            if (!s.empty ())
+                throw runtime_error ("Only one field can be specified");
             get_field (f, cout, l);
 
             // Make sure that everything was written
@@ -77,7 +79,7 @@ int main (int argc, char **argv)
             f = recenter (f, true);
         else if (args.command.name == "resize-extra")
         {
-            const int new_size = std::stoi (args.command.params);
+            const int new_size = spoc::cmd::parse_int (args.command.params);
             if (new_size < 0)
                 throw runtime_error ("The number of extra fields must be >= 0");
             if (new_size > 255)
@@ -95,6 +97,8 @@ int main (int argc, char **argv)
                 throw runtime_error ("Could not open file for reading");
             string s = args.command.params;
             const auto l = consume_field_name (s);
+            if (!s.empty ())
+                throw runtime_error ("Only one field can be specified");
             f = set_field (f, field_ifs, l);
         }
         else if (args.command.name == "subtract-min-xy")
diff --git a/apps/tool/tool_cmd.h b/apps/tool/tool_cmd.h
index 7a93ddc..5d14289 100644
--- a/apps/tool/tool_cmd.h
+++ b/apps/tool/tool_cmd.h
@@ -142,7 +142,7 @@ inline args get_args (int argc, char **argv, const std::string &usage)
             }
             case RESOLUTION:
             {
-                args.resolution = atof (optarg);
+                args.resolution = spoc::cmd::parse_double (optarg);
                 break;
             }
         }
diff --git a/apps/transform/transform_cmd.h b/apps/transform/transform_cmd.h
index 4b7acbc..19f0324 100644
--- a/apps/transform/transform_cmd.h
+++ b/apps/transform/transform_cmd.h
@@ -165,7 +165,7 @@ inline args get_args (int argc, char **argv, const std::string &usage)
             }
             case 'a':
             {
-                args.random_seed = std::atol (optarg);
+                args.random_seed = spoc::cmd::parse_long (optarg);
                 break;
             }
             case REPLACE:
diff --git a/spoc/app_utils.h b/spoc/app_utils.h
index 2af8e59..7ad0106 100644
--- a/spoc/app_utils.h
+++ b/spoc/app_utils.h
@@ -97,9 +97,11 @@ int get_extra_index (const std::string &f)
 
     // Convert to int
     int n;
-    try { n = stoi (e); }
+    size_t sz = 0;
+    try { n = stoi (e, &sz); }
     catch (...) { return -1; }
-    return n;
+    // Everything after the 'e' must be part of the number
+    return sz == e.size () ? n : -1;
 }
 
 bool check_field_name (const std::string &f)
@@ -120,6 +122,16 @@ bool check_field_name (const std::string &f)
     return false;
 }
 
+// Values are separated by commas
+void consume_separator (std::string &s)
+{
+    if (s.empty ())
+        return;
+    if (s[0] != ',')
+        throw std::runtime_error (std::string ("Expected a ',': ") + s);
+    s.erase (0, 1);
+}
+
 std::string consume_field_name (std::string &s)
 {
     // Check string
@@ -140,8 +152,8 @@ std::string consume_field_name (std::string &s)
     if (!check_field_name (field_name))
         throw std::runtime_error (std::string ("Invalid field name: " + field_name));
 
-    // Skip over the char
-    s.erase (0, 1);
+    // Skip over the separator
+    consume_separator (s);
 
     return field_name;
 }
@@ -152,7 +164,8 @@ unsigned consume_int (std::string &s)
     unsigned v = 0;
     try { v = std::stoi (s, &sz); }
     catch (...) { throw std::runtime_error (std::string ("Could not parse int value string: ") + s); }
-    s.erase (0, sz + 1);
+    s.erase (0, sz);
+    consume_separator (s);
     return v;
 }
 
@@ -177,7 +190,8 @@ double consume_double (std::string &s)
     double v = 0.0;
     try { v = std::stod (s, &sz); }
     catch (...) { throw std::runtime_error (std::string ("Could not parse number value string: ") + s); }
-    s.erase (0, sz + 1);
+    s.erase (0, sz);
+    consume_separator (s);
     return v;
 }
 
diff --git a/spoc/cmd.h b/spoc/cmd.h
index cc8914f..b1891bb 100644
--- a/spoc/cmd.h
+++ b/spoc/cmd.h
@@ -4,6 +4,9 @@
 
 #include <getopt.h>
 #include <iostream>
+#include <limits>
+#include <stdexcept>
+#include <string>
 
 namespace spoc
 {
@@ -11,6 +14,38 @@ namespace spoc
 namespace cmd
 {
 
+// Convert an option's argument to a number, making sure that all of it
+// was used
+inline long parse_long (const std::string &s)
+{
+    size_t sz = 0;
+    long v = 0;
+    try { v = std::stol (s, &sz); }
+    catch (...) { throw std::runtime_error ("Could not parse int value string: " + s); }
+    if (sz != s.size ())
+        throw std::runtime_error ("Could not parse int value string: " + s);
+    return v;
+}
+
+inline int parse_int (const std::string &s)
+{
+    const long v = parse_long (s);
+    if (v < std::numeric_limits<int>::min () || v > std::numeric_limits<int>::max ())
+        throw std::runtime_error ("Int value is out of range: " + s);
+    return v;
+}
+
+inline double parse_double (const std::string &s)
+{
+    size_t sz = 0;
+    double v = 0.0;
+    try { v = std::stod (s, &sz); }
+    catch (...) { throw std::runtime_error ("Could not parse number value string: " + s); }
+    if (sz != s.size ())
+        throw std::runtime_error ("Could not parse number value string: " + s);
+    return v;
+}
+
 void print_help (std::ostream &os, const std::string &usage, const size_t noptions, option long_options[])
 {
     // Check preconditions
-- 
2.43.0

