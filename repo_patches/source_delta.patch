From 0c0c5984945cf5ee550e017a068c1431a8b16ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:02 +0000
Subject: [PATCH 01/45] fix: read uncompressed records that are larger than the
 read buffer

---
 spoc/io.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/spoc/io.h b/spoc/io.h
index f41f265..5625d0b 100644
--- a/spoc/io.h
+++ b/spoc/io.h
@@ -99,10 +99,6 @@ inline point_record::point_records read_uncompressed_points (std::istream &s,
     const size_t total_points,
     const size_t extra_fields)
 {
-    // Allocate the buffer
-    const size_t buffer_size = 1 * 1024;
-    std::vector<char> buffer (buffer_size);
-
     // Determine sizes
     const size_t struct_size =
         sizeof(double) // x
@@ -116,6 +112,10 @@ inline point_record::point_records read_uncompressed_points (std::istream &s,
         + sizeof(uint16_t); // b
     const size_t extra_size = extra_fields * sizeof(uint64_t);
     const size_t record_size = struct_size + extra_size;
+
+    // Allocate the buffer, it must be able to hold at least one record
+    const size_t buffer_size = std::max (static_cast<size_t> (1 * 1024), record_size);
+    std::vector<char> buffer (buffer_size);
     const size_t records_per_buffer = buffer_size / record_size;
 
     // Allocate the records
-- 
2.43.0


From 8fa7daebe05997403cdcf9fafe3a07800c380cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:02 +0000
Subject: [PATCH 02/45] fix: transform replace-not sets the field it was asked
 to replace

---
 apps/transform/transform.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/apps/transform/transform.h b/apps/transform/transform.h
index d043456..a4ae647 100644
--- a/apps/transform/transform.h
+++ b/apps/transform/transform.h
@@ -302,11 +302,11 @@ OP get_replace_not_op (const std::string &field_name,
             switch (field_name[0])
             {
                 case 'c': p.c = r; break;
-                case 'p': p.c = r; break;
-                case 'i': p.c = r; break;
-                case 'r': p.c = r; break;
-                case 'g': p.c = r; break;
-                case 'b': p.c = r; break;
+                case 'p': p.p = r; break;
+                case 'i': p.i = r; break;
+                case 'r': p.r = r; break;
+                case 'g': p.g = r; break;
+                case 'b': p.b = r; break;
                 case 'e': // extra
                 {
                     assert (is_extra_field (field_name));
-- 
2.43.0


From c5373ebdd45543adf163e9dfd96317af366691eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:02 +0000
Subject: [PATCH 03/45] fix: accept the documented transform noise options

---
 apps/transform/transform_cmd.h | 40 ++++++++++++++++++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/apps/transform/transform_cmd.h b/apps/transform/transform_cmd.h
index addd80c..8ff229e 100644
--- a/apps/transform/transform_cmd.h
+++ b/apps/transform/transform_cmd.h
@@ -193,6 +193,46 @@ inline args get_args (int argc, char **argv, const std::string &usage)
                 args.commands.push_back (get_command ("set", optarg));
                 break;
             }
+            case GAUSSIAN_NOISE:
+            {
+                args.commands.push_back (get_command ("gaussian-noise", optarg));
+                break;
+            }
+            case GAUSSIAN_NOISE_X:
+            {
+                args.commands.push_back (get_command ("gaussian-noise-x", optarg));
+                break;
+            }
+            case GAUSSIAN_NOISE_Y:
+            {
+                args.commands.push_back (get_command ("gaussian-noise-y", optarg));
+                break;
+            }
+            case GAUSSIAN_NOISE_Z:
+            {
+                args.commands.push_back (get_command ("gaussian-noise-z", optarg));
+                break;
+            }
+            case UNIFORM_NOISE:
+            {
+                args.commands.push_back (get_command ("uniform-noise", optarg));
+                break;
+            }
+            case UNIFORM_NOISE_X:
+            {
+                args.commands.push_back (get_command ("uniform-noise-x", optarg));
+                break;
+            }
+            case UNIFORM_NOISE_Y:
+            {
+                args.commands.push_back (get_command ("uniform-noise-y", optarg));
+                break;
+            }
+            case UNIFORM_NOISE_Z:
+            {
+                args.commands.push_back (get_command ("uniform-noise-z", optarg));
+                break;
+            }
         }
     }
 
-- 
2.43.0


From edc3f8561ef19f7c3d820a82f59b6f6b49f51748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:02 +0000
Subject: [PATCH 04/45] fix: accept the documented transform -a option

---
 apps/transform/transform_cmd.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/transform/transform_cmd.h b/apps/transform/transform_cmd.h
index 8ff229e..0aee080 100644
--- a/apps/transform/transform_cmd.h
+++ b/apps/transform/transform_cmd.h
@@ -100,7 +100,7 @@ inline args get_args (int argc, char **argv, const std::string &usage)
             {0, 0, 0, 0}
         };
 
-        int c = getopt_long(argc, argv, "hve", long_options, &option_index);
+        int c = getopt_long(argc, argv, "hvea:", long_options, &option_index);
         if (c == -1)
             break;
 
-- 
2.43.0


From c28a25ea8b7e3dc51ad1e0ed9a0c8f84b52eae25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:02 +0000
Subject: [PATCH 05/45] fix: print 32-bit unsigned values in JSON output

---
 spoc/json.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/spoc/json.h b/spoc/json.h
index f681258..88e3b3e 100644
--- a/spoc/json.h
+++ b/spoc/json.h
@@ -20,6 +20,7 @@ namespace json
 //      char,
 //      uint8_t,
 //      uint16_t,
+//      uint32_t,
 //      uint64_t,
 //      float,
 //      double,
@@ -93,6 +94,10 @@ inline void pretty_print (std::ostream &s, const json::value &v, const int inden
     {
         s << std::any_cast<uint16_t> (v);
     }
+    else if (v.type () == typeid (uint32_t))
+    {
+        s << std::any_cast<uint32_t> (v);
+    }
     else if (v.type () == typeid (uint64_t))
     {
         s << std::any_cast<uint64_t> (v);
@@ -172,6 +177,8 @@ inline std::ostream &operator<< (std::ostream &s, const json::value &v)
         s << int (std::any_cast<uint8_t> (v));
     else if (v.type () == typeid (uint16_t))
         s << std::any_cast<uint16_t> (v);
+    else if (v.type () == typeid (uint32_t))
+        s << std::any_cast<uint32_t> (v);
     else if (v.type () == typeid (uint64_t))
         s << std::any_cast<uint64_t> (v);
     else if (v.type () == typeid (float))
-- 
2.43.0


From a078be22b3d2dccaff1b1016be3a97af6137561a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:29 +0000
Subject: [PATCH 06/45] fix: reject truncated headers

---
 spoc/header.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spoc/header.h b/spoc/header.h
index c76d2ce..b025184 100644
--- a/spoc/header.h
+++ b/spoc/header.h
@@ -172,6 +172,8 @@ inline header read_header (std::istream &s)
     s.read (reinterpret_cast<char*>(&h.extra_fields), sizeof(uint8_t));
     s.read (reinterpret_cast<char*>(&h.total_points), sizeof(uint64_t));
     s.read (reinterpret_cast<char*>(&h.compressed), sizeof(uint8_t));
+    if (!s)
+        throw std::runtime_error ("Could not read the entire header");
     return h;
 }
 
-- 
2.43.0


From 46f34b1076521fa6c4b6a39b59f3fe2d05764e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:29 +0000
Subject: [PATCH 07/45] fix: reject a truncated point record

---
 spoc/point_record.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/spoc/point_record.h b/spoc/point_record.h
index c6353e3..96d2bb3 100644
--- a/spoc/point_record.h
+++ b/spoc/point_record.h
@@ -3,6 +3,7 @@
 #include "spoc/utils.h"
 #include <algorithm>
 #include <functional>
+#include <stdexcept>
 
 namespace spoc
 {
@@ -158,6 +159,8 @@ inline point_record read_point_record (std::istream &s, const size_t extra_field
         + sizeof(uint16_t));
     if (p.extra.size () != 0)
         s.read (reinterpret_cast<char*>(&p.extra[0]), p.extra.size () * sizeof(uint64_t));
+    if (!s)
+        throw std::runtime_error ("Could not read the entire point record");
     return p;
 }
 
-- 
2.43.0


From 81781f195fee7233ee724dae1fdb6e5a39514023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:29 +0000
Subject: [PATCH 08/45] fix: reject truncated uncompressed files

---
 spoc/io.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spoc/io.h b/spoc/io.h
index 5625d0b..8bd7a09 100644
--- a/spoc/io.h
+++ b/spoc/io.h
@@ -130,6 +130,8 @@ inline point_record::point_records read_uncompressed_points (std::istream &s,
             ? records_per_buffer
             : total_points - i;
         s.read (&buffer[0], total_records * record_size);
+        if (!s)
+            throw std::runtime_error ("Could not read all of the point records");
 
         // Convert from raw memory to record
         for (size_t j = 0; j < total_records; ++j)
-- 
2.43.0


From 8d32e91c5285aac3b484dcf47895d1a3290190cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:29 +0000
Subject: [PATCH 09/45] fix: reject truncated compressed files

---
 spoc/io.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/spoc/io.h b/spoc/io.h
index 8bd7a09..0e00028 100644
--- a/spoc/io.h
+++ b/spoc/io.h
@@ -75,6 +75,8 @@ inline std::vector<T> read_compressed (std::istream &s, const size_t size)
     // Get number of compressed bytes
     uint64_t n = 0;
     s.read (reinterpret_cast<char*>(&n), sizeof(uint64_t));
+    if (!s)
+        throw std::runtime_error ("Could not read all of the compressed fields");
 
     // If a '0' was written, the vector is empty
     if (n == 0)
@@ -83,6 +85,8 @@ inline std::vector<T> read_compressed (std::istream &s, const size_t size)
     // Read compressed bytes
     std::vector<uint8_t> c (n);
     s.read (reinterpret_cast<char *> (&c[0]), n);
+    if (!s)
+        throw std::runtime_error ("Could not read all of the compressed fields");
 
     // Decompress
     std::vector<T> x (size);
-- 
2.43.0


From c3e365a3cb782aa3c671dba1d879c11a0f4e9b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:29 +0000
Subject: [PATCH 10/45] fix: reject incomplete deflate streams

---
 spoc/compression.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/spoc/compression.h b/spoc/compression.h
index 2b4605e..09761d8 100644
--- a/spoc/compression.h
+++ b/spoc/compression.h
@@ -158,10 +158,11 @@ inline std::vector<uint8_t> decompress (const std::vector<uint8_t> &input)
     inflator.s.avail_in = input.size ();
     inflator.s.next_in = const_cast<unsigned char *> (&input[0]);
 
+    int ret = Z_OK;
     do {
         inflator.s.avail_out = BUFFER_SIZE;
         inflator.s.next_out = &output_buffer[0];
-        const auto ret = inflate (&inflator.s, Z_NO_FLUSH);
+        ret = inflate (&inflator.s, Z_NO_FLUSH);
         switch (ret)
         {
             // GCOV_EXCL_START
@@ -180,6 +181,10 @@ inline std::vector<uint8_t> decompress (const std::vector<uint8_t> &input)
             output_buffer.begin () + decompressed_bytes);
     } while (inflator.s.avail_out == 0);
 
+    // The end of the deflate stream, and its checksum, must be present
+    if (ret != Z_STREAM_END)
+        throw std::runtime_error (zlib_error_string (Z_DATA_ERROR));
+
     return output;
 }
 
@@ -240,6 +245,10 @@ inline void decompress (std::istream &is, std::ostream &os)
             // GCOV_EXCL_STOP
         } while (inflator.s.avail_out == 0);
     } while (!done);
+
+    // The end of the deflate stream, and its checksum, must be present
+    if (!done)
+        throw std::runtime_error (zlib_error_string (Z_DATA_ERROR));
 }
 
 } // namespace compression
-- 
2.43.0


From 7f0cea97a9f8d83ef83065b37dc8f0283fefde8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:29 +0000
Subject: [PATCH 11/45] fix: report failures to write spoc files

---
 spoc/header.h       | 2 ++
 spoc/io.h           | 4 ++++
 spoc/point_record.h | 2 ++
 3 files changed, 8 insertions(+)

diff --git a/spoc/header.h b/spoc/header.h
index b025184..436745c 100644
--- a/spoc/header.h
+++ b/spoc/header.h
@@ -146,6 +146,8 @@ inline void write_header (std::ostream &s, const header &h)
     s.write (reinterpret_cast<const char*>(&h.total_points), sizeof(uint64_t));
     s.write (reinterpret_cast<const char*>(&h.compressed), sizeof(uint8_t));
     s.flush ();
+    if (!s)
+        throw std::runtime_error ("Could not write the header");
 }
 
 /// I/O function
diff --git a/spoc/io.h b/spoc/io.h
index 0e00028..7815e3b 100644
--- a/spoc/io.h
+++ b/spoc/io.h
@@ -377,6 +377,10 @@ inline void write_spoc_file_compressed (std::ostream &s, const spoc::file::spoc_
 
     for (size_t j = 0; j < extras.size (); ++j)
         write_compressed (s, extras[j]);
+
+    s.flush ();
+    if (!s)
+        throw std::runtime_error ("Could not write the compressed fields");
 }
 
 /// Helper I/O function
diff --git a/spoc/point_record.h b/spoc/point_record.h
index 96d2bb3..70201b0 100644
--- a/spoc/point_record.h
+++ b/spoc/point_record.h
@@ -142,6 +142,8 @@ inline void write_point_record (std::ostream &s, const point_record &p)
     if (p.extra.size () != 0)
         s.write (reinterpret_cast<const char*>(&p.extra[0]), p.extra.size () * sizeof(uint64_t));
     s.flush ();
+    if (!s)
+        throw std::runtime_error ("Could not write the point record");
 }
 
 // Record I/O
-- 
2.43.0


From 385fff076f6fcfd25b9cb76cbf903132b032f4b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:29 +0000
Subject: [PATCH 12/45] fix: report failures to write field values

---
 apps/tool/tool.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/apps/tool/tool.h b/apps/tool/tool.h
index 75b7d6c..e6d7f82 100644
--- a/apps/tool/tool.h
+++ b/apps/tool/tool.h
@@ -60,6 +60,9 @@ inline void get_field (const T &f, std::ostream &os, const std::string &field_na
             break;
         }
     }
+
+    if (!os)
+        throw std::runtime_error ("Could not write all of the field values");
 }
 
 // Recenter a point cloud about its mean
-- 
2.43.0


From c86cac4f82a8ff49a3f51efbc6d00caeaac100c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:29 +0000
Subject: [PATCH 13/45] fix: refuse to write more extra fields than the header
 can hold

---
 spoc/file.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spoc/file.h b/spoc/file.h
index 238df40..86e045f 100644
--- a/spoc/file.h
+++ b/spoc/file.h
@@ -146,6 +146,8 @@ class spoc_file
     header::header get_header () const
     {
         const size_t extra_fields = get_extra_fields ();
+        if (extra_fields > 0xFF)
+            throw std::runtime_error ("The number of extra fields may not exceed 255");
         const size_t total_points = prs.size ();
         header::header h (major_version, minor_version, wkt, extra_fields, total_points, compressed);
 
-- 
2.43.0


From f1ef4704114d4ca9e17a8d124fbc661c83cfa496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:29 +0000
Subject: [PATCH 14/45] fix: report an error when getting an extra field that
 does not exist

---
 apps/tool/tool.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/apps/tool/tool.h b/apps/tool/tool.h
index e6d7f82..d1109ec 100644
--- a/apps/tool/tool.h
+++ b/apps/tool/tool.h
@@ -54,7 +54,8 @@ inline void get_field (const T &f, std::ostream &os, const std::string &field_na
             case 'e': // extra
             {
                 assert (app_utils::is_extra_field (field_name));
-                assert (j < p.extra.size ());
+                if (j >= p.extra.size ())
+                    throw std::runtime_error ("Invalid extra field specification");
                 os << p.extra[j] << std::endl;
             }
             break;
-- 
2.43.0


From a828e581235fb7e80f86372ba709f4f985044517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:29 +0000
Subject: [PATCH 15/45] fix: reject malformed field values instead of setting
 zeros

---
 apps/tool/tool.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/apps/tool/tool.h b/apps/tool/tool.h
index d1109ec..7f818e7 100644
--- a/apps/tool/tool.h
+++ b/apps/tool/tool.h
@@ -173,8 +173,10 @@ inline T set_field (const T &f, std::istream &field_ifs, const std::string &fiel
             field_ifs >> f_size_t[i];
 
         // Make sure there are still values to read
-        if (field_ifs.eof ())
-            throw std::runtime_error ("Reached end-of-file before reading all field values");
+        if (field_ifs.fail ())
+            throw std::runtime_error (field_ifs.eof ()
+                ? "Reached end-of-file before reading all field values"
+                : "Could not parse field value");
     }
 
     // Copy points
-- 
2.43.0


From d9ebbc834ba4b335c47d4fba445fbae7ca268587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:41 +0000
Subject: [PATCH 16/45] fix: report failures to write file information

---
 apps/info/info.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/apps/info/info.h b/apps/info/info.h
index 4942653..4a134d0 100644
--- a/apps/info/info.h
+++ b/apps/info/info.h
@@ -350,6 +350,10 @@ inline void process (std::ostream &os,
             }
         }
     }
+
+    os.flush ();
+    if (!os)
+        throw std::runtime_error ("Could not write all of the information");
 }
 
 } // namespace info_app
-- 
2.43.0


From c693b0c7e27fc7fa778c610e3e6dbc08263d0b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:41 +0000
Subject: [PATCH 17/45] fix: report failures to write the SRS

---
 apps/srs/srs.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/apps/srs/srs.cpp b/apps/srs/srs.cpp
index 52b4ac4..8c64ed5 100644
--- a/apps/srs/srs.cpp
+++ b/apps/srs/srs.cpp
@@ -66,6 +66,9 @@ int main (int argc, char **argv)
                 auto h = read_header (cin);
 
                 cout << h.wkt << endl;
+
+                if (!cout)
+                    throw runtime_error ("Could not write the SRS");
             }
         }
         else if (args.set_srs)
@@ -114,6 +117,9 @@ int main (int argc, char **argv)
                 auto h = read_header (ifs);
 
                 cout << h.wkt << endl;
+
+                if (!cout)
+                    throw runtime_error ("Could not write the SRS");
             }
         }
 
-- 
2.43.0


From c8563a457ae12324eeaa2fdaa8315409d2792946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:41 +0000
Subject: [PATCH 18/45] fix: write enough digits to recover field values
 exactly

---
 apps/tool/tool.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/tool/tool.h b/apps/tool/tool.h
index 7f818e7..f589438 100644
--- a/apps/tool/tool.h
+++ b/apps/tool/tool.h
@@ -27,7 +27,7 @@ inline void get_field (const T &f, std::ostream &os, const std::string &field_na
         case 'x':
         case 'y':
         case 'z':
-            os << std::setprecision(std::numeric_limits<double>::digits10 + 1);
+            os << std::setprecision(std::numeric_limits<double>::max_digits10);
         break;
     }
 
-- 
2.43.0


From 10d872f2970d516bde07f48353ea82f7b9880550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:41 +0000
Subject: [PATCH 19/45] fix: quantize coordinates that overflow an int

---
 apps/transform/transform.h | 9 +++++----
 spoc/utils.h               | 9 +++++----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/apps/transform/transform.h b/apps/transform/transform.h
index a4ae647..11ab098 100644
--- a/apps/transform/transform.h
+++ b/apps/transform/transform.h
@@ -3,6 +3,7 @@
 #include "spoc/app_utils.h"
 #include "spoc/spoc.h"
 #include <cassert>
+#include <cmath>
 #include <iostream>
 #include <limits>
 #include <random>
@@ -171,10 +172,10 @@ OP get_quantize_op (const double precision)
     // Get the operation
     OP op = [=] (PR p)
     {
-        // Quantize the point
-        p.x = static_cast<int> (p.x / precision) * precision;
-        p.y = static_cast<int> (p.y / precision) * precision;
-        p.z = static_cast<int> (p.z / precision) * precision;
+        // Quantize the point. Adding 0.0 turns -0.0 into 0.0.
+        p.x = std::trunc (p.x / precision) * precision + 0.0;
+        p.y = std::trunc (p.y / precision) * precision + 0.0;
+        p.z = std::trunc (p.z / precision) * precision + 0.0;
         return p;
     };
 
diff --git a/spoc/utils.h b/spoc/utils.h
index e7f8d63..f4f5a21 100644
--- a/spoc/utils.h
+++ b/spoc/utils.h
@@ -1,5 +1,6 @@
 #pragma once
 #include "contracts.h"
+#include <cmath>
 #include <functional>
 
 namespace spoc
@@ -43,10 +44,10 @@ void quantize (T &p, const double precision)
 #pragma omp parallel for
     for (size_t i = 0; i < p.size (); ++i)
     {
-        // Quantize the point
-        p[i].x = static_cast<int> (p[i].x / precision) * precision;
-        p[i].y = static_cast<int> (p[i].y / precision) * precision;
-        p[i].z = static_cast<int> (p[i].z / precision) * precision;
+        // Quantize the point. Adding 0.0 turns -0.0 into 0.0.
+        p[i].x = std::trunc (p[i].x / precision) * precision + 0.0;
+        p[i].y = std::trunc (p[i].y / precision) * precision + 0.0;
+        p[i].z = std::trunc (p[i].z / precision) * precision + 0.0;
     }
 }
 
-- 
2.43.0


From 90352b10a570b77767e11cc2e844f4471308ef5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:41 +0000
Subject: [PATCH 20/45] fix: reject conflicting diff options

---
 apps/diff/diff.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/diff/diff.cpp b/apps/diff/diff.cpp
index c349918..608d0cc 100644
--- a/apps/diff/diff.cpp
+++ b/apps/diff/diff.cpp
@@ -46,7 +46,7 @@ int main (int argc, char **argv)
             clog << "filename2\t'" << args.fn2 << "'" << endl;
         }
 
-        if (args.header_only + args.data_only + !args.fields.empty () > 2)
+        if (args.header_only + args.data_only + !args.fields.empty () > 1)
             throw runtime_error ("Can't specify more than 1 of 'header-only', 'data-only', and specific fields");
 
         if (args.verbose)
-- 
2.43.0


From bf7aaaf5fa74422dbbff5dfb3c73845302bf69f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:01 +0000
Subject: [PATCH 21/45] fix: preserve negative zeros in compressed files

---
 spoc/io.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/spoc/io.h b/spoc/io.h
index 7815e3b..79d8ac6 100644
--- a/spoc/io.h
+++ b/spoc/io.h
@@ -25,8 +25,10 @@ namespace io
 template<typename T>
 inline bool all_zero (const std::vector<T> &x)
 {
-    if (std::any_of (x.begin (), x.end (),
-        [](const T &i) { return i != 0; }))
+    // Check bytes, not values, because -0.0 compares equal to 0.0
+    const auto *p = reinterpret_cast<const uint8_t *> (x.data ());
+    if (std::any_of (p, p + x.size () * sizeof(T),
+        [](const uint8_t i) { return i != 0; }))
         return false;
     return true;
 }
-- 
2.43.0


From f5291bc8601e5e7c1b0e4600a2e2d069d9fc0cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:01 +0000
Subject: [PATCH 22/45] fix: report classifications that do not fit in an int

---
 apps/info/info.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/apps/info/info.h b/apps/info/info.h
index 4a134d0..9fd639a 100644
--- a/apps/info/info.h
+++ b/apps/info/info.h
@@ -15,7 +15,7 @@ namespace info_app
 template<typename T>
 inline std::map<std::string,size_t> get_class_count_map (const T &c)
 {
-    std::unordered_map<int,size_t> m;
+    std::unordered_map<uint32_t,size_t> m;
 
     // Count each classification
     //
@@ -323,7 +323,7 @@ inline void process (std::ostream &os,
 
             for (auto i : class_count_map)
             {
-                const auto j = std::stoi (i.first);
+                const auto j = std::stoul (i.first);
                 const auto l = class_map.find (j) == class_map.end ()
                     ? "undefined"
                     : class_map.at (j);
-- 
2.43.0


From 1fe47cfb9f4470cafcc26b15aaf20a4fa69d8c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:01 +0000
Subject: [PATCH 23/45] fix: find neighbors in voxels whose index does not fit
 in an int

---
 spoc/radius_search.h | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/spoc/radius_search.h b/spoc/radius_search.h
index 686d84b..3b5486c 100644
--- a/spoc/radius_search.h
+++ b/spoc/radius_search.h
@@ -39,16 +39,16 @@ class random_neighbor_selector
         , voxel_counts (total_voxels)
     {
         // Get the voxel indexes for the 27 voxels
-        const int i1 = static_cast<int> (ijk.i) - 1;
-        const int i2 = static_cast<int> (ijk.i) + 2;
-        const int j1 = static_cast<int> (ijk.j) - 1;
-        const int j2 = static_cast<int> (ijk.j) + 2;
-        const int k1 = static_cast<int> (ijk.k) - 1;
-        const int k2 = static_cast<int> (ijk.k) + 2;
+        const size_t i1 = ijk.i - 1;
+        const size_t i2 = ijk.i + 2;
+        const size_t j1 = ijk.j - 1;
+        const size_t j2 = ijk.j + 2;
+        const size_t k1 = ijk.k - 1;
+        const size_t k2 = ijk.k + 2;
         size_t n = 0;
-        for (int i = i1; i < i2; ++i)
-            for (int j = j1; j < j2; ++j)
-                for (int k = k1; k < k2; ++k)
+        for (size_t i = i1; i != i2; ++i)
+            for (size_t j = j1; j != j2; ++j)
+                for (size_t k = k1; k != k2; ++k)
                     voxel_indexes[n++] = spoc::voxel::voxel_index (i, j, k);
 
         // There should have been 27
-- 
2.43.0


From d649369f0c6a768e48a9433abd3e1ec51baace9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:18 +0000
Subject: [PATCH 24/45] fix: spoc_diff prints its version without filenames

---
 apps/diff/diff_cmd.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/apps/diff/diff_cmd.h b/apps/diff/diff_cmd.h
index ed73ba7..fd32e94 100644
--- a/apps/diff/diff_cmd.h
+++ b/apps/diff/diff_cmd.h
@@ -72,6 +72,10 @@ inline args get_args (int argc, char **argv, const std::string &usage)
         }
     }
 
+    // No filenames are needed to print the version
+    if (args.version)
+        return args;
+
     // Get input filenames
     if (optind == argc)
         throw std::runtime_error ("No input filename 1 was specified");
-- 
2.43.0


From b493f64b2af015362ed0ec01762ad5af856487eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:16 +0000
Subject: [PATCH 25/45] fix: report failures to write the version

---
 apps/compress/compress.cpp     | 2 ++
 apps/decompress/decompress.cpp | 2 ++
 apps/diff/diff.cpp             | 2 ++
 apps/filter/filter.cpp         | 2 ++
 apps/info/info.cpp             | 2 ++
 apps/merge/merge.cpp           | 2 ++
 apps/srs/srs.cpp               | 2 ++
 apps/tile/tile.cpp             | 2 ++
 apps/tool/tool.cpp             | 2 ++
 apps/transform/transform.cpp   | 2 ++
 10 files changed, 20 insertions(+)

diff --git a/apps/compress/compress.cpp b/apps/compress/compress.cpp
index 882042e..413c22f 100644
--- a/apps/compress/compress.cpp
+++ b/apps/compress/compress.cpp
@@ -27,6 +27,8 @@ int main (int argc, char **argv)
                 << "."
                 << static_cast<int> (spoc::MINOR_VERSION)
                 << endl;
+            if (!cout)
+                throw runtime_error ("Could not write the version");
             return 0;
         }
 
diff --git a/apps/decompress/decompress.cpp b/apps/decompress/decompress.cpp
index 98223c5..3f77cbb 100644
--- a/apps/decompress/decompress.cpp
+++ b/apps/decompress/decompress.cpp
@@ -27,6 +27,8 @@ int main (int argc, char **argv)
                 << "."
                 << static_cast<int> (spoc::MINOR_VERSION)
                 << endl;
+            if (!cout)
+                throw runtime_error ("Could not write the version");
             return 0;
         }
 
diff --git a/apps/diff/diff.cpp b/apps/diff/diff.cpp
index 608d0cc..99f4027 100644
--- a/apps/diff/diff.cpp
+++ b/apps/diff/diff.cpp
@@ -27,6 +27,8 @@ int main (int argc, char **argv)
                 << "."
                 << static_cast<int> (spoc::MINOR_VERSION)
                 << endl;
+            if (!cout)
+                throw runtime_error ("Could not write the version");
             return 0;
         }
 
diff --git a/apps/filter/filter.cpp b/apps/filter/filter.cpp
index 44651bf..a24f215 100644
--- a/apps/filter/filter.cpp
+++ b/apps/filter/filter.cpp
@@ -29,6 +29,8 @@ int main (int argc, char **argv)
                 << "."
                 << static_cast<int> (spoc::MINOR_VERSION)
                 << endl;
+            if (!cout)
+                throw runtime_error ("Could not write the version");
             return 0;
         }
 
diff --git a/apps/info/info.cpp b/apps/info/info.cpp
index 9121ba9..f33acb1 100644
--- a/apps/info/info.cpp
+++ b/apps/info/info.cpp
@@ -27,6 +27,8 @@ int main (int argc, char **argv)
                 << "."
                 << static_cast<int> (spoc::MINOR_VERSION)
                 << endl;
+            if (!cout)
+                throw runtime_error ("Could not write the version");
             return 0;
         }
 
diff --git a/apps/merge/merge.cpp b/apps/merge/merge.cpp
index 5395917..336b67d 100644
--- a/apps/merge/merge.cpp
+++ b/apps/merge/merge.cpp
@@ -28,6 +28,8 @@ int main (int argc, char **argv)
                 << "."
                 << static_cast<int> (spoc::MINOR_VERSION)
                 << endl;
+            if (!cout)
+                throw runtime_error ("Could not write the version");
             return 0;
         }
 
diff --git a/apps/srs/srs.cpp b/apps/srs/srs.cpp
index 8c64ed5..2a68c12 100644
--- a/apps/srs/srs.cpp
+++ b/apps/srs/srs.cpp
@@ -27,6 +27,8 @@ int main (int argc, char **argv)
                 << "."
                 << static_cast<int> (spoc::MINOR_VERSION)
                 << endl;
+            if (!cout)
+                throw runtime_error ("Could not write the version");
             return 0;
         }
 
diff --git a/apps/tile/tile.cpp b/apps/tile/tile.cpp
index af5b31b..be95bdb 100644
--- a/apps/tile/tile.cpp
+++ b/apps/tile/tile.cpp
@@ -33,6 +33,8 @@ int main (int argc, char **argv)
                 << "."
                 << static_cast<int> (spoc::MINOR_VERSION)
                 << endl;
+            if (!cout)
+                throw runtime_error ("Could not write the version");
             return 0;
         }
 
diff --git a/apps/tool/tool.cpp b/apps/tool/tool.cpp
index 8347f9a..28362f8 100644
--- a/apps/tool/tool.cpp
+++ b/apps/tool/tool.cpp
@@ -29,6 +29,8 @@ int main (int argc, char **argv)
                 << "."
                 << static_cast<int> (spoc::MINOR_VERSION)
                 << endl;
+            if (!cout)
+                throw runtime_error ("Could not write the version");
             return 0;
         }
 
diff --git a/apps/transform/transform.cpp b/apps/transform/transform.cpp
index 6d2d130..c36e42f 100644
--- a/apps/transform/transform.cpp
+++ b/apps/transform/transform.cpp
@@ -27,6 +27,8 @@ int main (int argc, char **argv)
                 << "."
                 << static_cast<int> (spoc::MINOR_VERSION)
                 << endl;
+            if (!cout)
+                throw runtime_error ("Could not write the version");
             return 0;
         }
 
-- 
2.43.0


From af1c474cce43930fa7fa8e298e7bbad825420099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:50 +0000
Subject: [PATCH 26/45] fix: reject trailing characters in a filter comparison
 value

---
 apps/filter/filter.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/apps/filter/filter.h b/apps/filter/filter.h
index 86965b2..e80ff8b 100644
--- a/apps/filter/filter.h
+++ b/apps/filter/filter.h
@@ -146,7 +146,11 @@ inline T remove_coords (const T &f, const std::string &op)
     double compare_value = std::numeric_limits<double>::quiet_NaN();
     try
     {
-        compare_value = std::stod(ops[2]);
+        size_t pos = 0;
+        compare_value = std::stod(ops[2], &pos);
+        // The whole argument must have been converted
+        if (pos != ops[2].size ())
+            throw std::runtime_error("Unexpected characters after the comparison value");
     }
     catch (const std::exception &e)
     {
-- 
2.43.0


From 5e408699d272146dfde39bc31b00c2d5b857e75f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:43 +0000
Subject: [PATCH 27/45] fix: reject unknown diff fields after a field that
 differs

---
 apps/diff/diff.h | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/apps/diff/diff.h b/apps/diff/diff.h
index 38a82c7..e8e6d41 100644
--- a/apps/diff/diff.h
+++ b/apps/diff/diff.h
@@ -156,10 +156,6 @@ inline int diff (const spoc::file::spoc_file &f1,
                               break;
                           }
             }
-
-            // If any are not equal, short-circuit
-            if (return_code != 0)
-                break;
         }
     }
 
-- 
2.43.0


From d43f53ac9388d53fc344d08b358a4d854e167109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:35 +0000
Subject: [PATCH 28/45] fix: reject extra field names with trailing characters

---
 spoc/app_utils.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/spoc/app_utils.h b/spoc/app_utils.h
index eef04f2..7e79542 100644
--- a/spoc/app_utils.h
+++ b/spoc/app_utils.h
@@ -97,8 +97,14 @@ int get_extra_index (const std::string &f)
 
     // Convert to int
     int n;
-    try { n = stoi (e); }
+    size_t sz = 0;
+    try { n = stoi (e, &sz); }
     catch (...) { return -1; }
+
+    // The number must not be followed by anything else
+    if (sz != e.size ())
+        return -1;
+
     return n;
 }
 
-- 
2.43.0


From ea8aab59df406ec5631500e4b57ca8e0f98e1d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:35 +0000
Subject: [PATCH 29/45] fix: report an error instead of aborting when a field
 name is missing

---
 spoc/app_utils.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spoc/app_utils.h b/spoc/app_utils.h
index 7e79542..2d9d1c0 100644
--- a/spoc/app_utils.h
+++ b/spoc/app_utils.h
@@ -129,7 +129,8 @@ bool check_field_name (const std::string &f)
 std::string consume_field_name (std::string &s)
 {
     // Check string
-    assert (!s.empty ());
+    if (s.empty ())
+        throw std::runtime_error ("Expected a field name");
 
     // Get the char
     char c = s[0];
-- 
2.43.0


From f2d27cb09ef7bae770aaffbefbfba6d537ce3ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:35 +0000
Subject: [PATCH 30/45] fix: reject malformed numbers in transform commands

---
 spoc/app_utils.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/spoc/app_utils.h b/spoc/app_utils.h
index 2d9d1c0..d3a1847 100644
--- a/spoc/app_utils.h
+++ b/spoc/app_utils.h
@@ -159,6 +159,8 @@ unsigned consume_int (std::string &s)
     unsigned v = 0;
     try { v = std::stoi (s, &sz); }
     catch (...) { throw std::runtime_error (std::string ("Could not parse int value string: ") + s); }
+    if (sz < s.size () && s[sz] != ',')
+        throw std::runtime_error (std::string ("Could not parse int value string: ") + s);
     s.erase (0, sz + 1);
     return v;
 }
@@ -170,10 +172,9 @@ std::vector<unsigned> consume_ints (std::string &s)
     unsigned v = consume_int (s);
     vs.push_back (v);
     // Get the rest
-    while (true)
+    while (!s.empty ())
     {
-        try { v = consume_int (s); }
-        catch (...) { break; }
+        v = consume_int (s);
         vs.push_back (v);
     }
     return vs;
@@ -185,6 +186,8 @@ double consume_double (std::string &s)
     double v = 0.0;
     try { v = std::stod (s, &sz); }
     catch (...) { throw std::runtime_error (std::string ("Could not parse number value string: ") + s); }
+    if (sz < s.size () && s[sz] != ',')
+        throw std::runtime_error (std::string ("Could not parse number value string: ") + s);
     s.erase (0, sz + 1);
     return v;
 }
-- 
2.43.0


From 2fd9e4fe88113cf2c55693014dddb2e40e10b367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:50 +0000
Subject: [PATCH 31/45] fix: reject trailing characters in the number of extra
 fields

---
 apps/tool/tool.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/apps/tool/tool.cpp b/apps/tool/tool.cpp
index 28362f8..44d751c 100644
--- a/apps/tool/tool.cpp
+++ b/apps/tool/tool.cpp
@@ -74,7 +74,10 @@ int main (int argc, char **argv)
             f = recenter (f, true);
         else if (args.command.name == "resize-extra")
         {
-            const int new_size = std::stoi (args.command.params);
+            size_t sz = 0;
+            const int new_size = std::stoi (args.command.params, &sz);
+            if (sz != args.command.params.size ())
+                throw runtime_error ("Could not parse the number of extra fields");
             if (new_size < 0)
                 throw runtime_error ("The number of extra fields must be >= 0");
             if (new_size > 255)
-- 
2.43.0


From 6c2df9e7905bdf3ed3d1526e5811bc064ba93871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:50 +0000
Subject: [PATCH 32/45] fix: set all 64 bits of extra fields in transform

---
 apps/transform/transform.h | 14 +++++++++++---
 spoc/app_utils.h           | 13 +++++++++++++
 2 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/apps/transform/transform.h b/apps/transform/transform.h
index 11ab098..c0389de 100644
--- a/apps/transform/transform.h
+++ b/apps/transform/transform.h
@@ -398,7 +398,10 @@ OP get_scale_z_op (double v)
     return op;
 }
 
-OP get_set_op (const std::string &field_name, const double v, const size_t extra_fields)
+// A double cannot hold all of the values of an integer field, so T may
+// be either a floating point or an integer type
+template<typename T>
+OP get_set_op (const std::string &field_name, const T v, const size_t extra_fields)
 {
     using namespace spoc::app_utils;
 
@@ -618,8 +621,13 @@ void apply (std::istream &is,
             // Get label and value
             std::string s = c.params;
             const auto l = consume_field_name (s);
-            const auto v = consume_double (s);
-            ops.push_back (get_set_op (l, v, h.extra_fields));
+            const bool integer_field = l != "x" && l != "y" && l != "z";
+            const bool integer_value = !s.empty ()
+                && s.find_first_not_of ("0123456789") == std::string::npos;
+            if (integer_field && integer_value)
+                ops.push_back (get_set_op (l, consume_uint64 (s), h.extra_fields));
+            else
+                ops.push_back (get_set_op (l, consume_double (s), h.extra_fields));
         }
         else if (c.name == "uniform-noise")
         {
diff --git a/spoc/app_utils.h b/spoc/app_utils.h
index d3a1847..8bc940d 100644
--- a/spoc/app_utils.h
+++ b/spoc/app_utils.h
@@ -1,6 +1,7 @@
 #pragma once
 
 #include <cassert>
+#include <cstdint>
 #include <fstream>
 #include <iostream>
 #include <stdexcept>
@@ -165,6 +166,18 @@ unsigned consume_int (std::string &s)
     return v;
 }
 
+uint64_t consume_uint64 (std::string &s)
+{
+    size_t sz = 0;
+    uint64_t v = 0;
+    try { v = std::stoull (s, &sz); }
+    catch (...) { throw std::runtime_error (std::string ("Could not parse int value string: ") + s); }
+    if (sz < s.size () && s[sz] != ',')
+        throw std::runtime_error (std::string ("Could not parse int value string: ") + s);
+    s.erase (0, sz + 1);
+    return v;
+}
+
 std::vector<unsigned> consume_ints (std::string &s)
 {
     std::vector<unsigned> vs;
-- 
2.43.0


From 420b3c2a885930ea729f43949c517b271a787b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:11 +0000
Subject: [PATCH 33/45] fix: document the header and metric options of
 spoc_info as they are

---
 apps/info/info.1.md | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/apps/info/info.1.md b/apps/info/info.1.md
index 27847fc..d682580 100644
--- a/apps/info/info.1.md
+++ b/apps/info/info.1.md
@@ -72,7 +72,7 @@ highest 25% of the values are spread out over the range 89 to 4088.
 \-\-classification-info, -l
 : Toggle classification information switch
 
-\-\-metric-info, -l
+\-\-metric-info, -m
 : Toggle metric information switch
 
 \-\-compact, -c
@@ -96,7 +96,7 @@ Compact, text mode output
 
 Compact, text mode output without header information
 
-    $ spoc_info -h < Austin.spoc
+    $ spoc_info -a < Austin.spoc
     x	range=249.950, 356631.450 +87.350 +45.920 +39.090 +77.590 = 356881.400
     y	range=306.600, 3515084.930 +125.650 +52.810 +40.120 +88.020 = 3515391.530
     z	range=24.860, 1134.220 +2.290 +2.240 +3.290 +17.040 = 1159.080
-- 
2.43.0


From 2dff17a08e4d8ed8492002174ed125a8498d9619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:11 +0000
Subject: [PATCH 34/45] fix: remove an option that spoc_tool does not have from
 its manual

---
 apps/tool/tool.1.md | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/apps/tool/tool.1.md b/apps/tool/tool.1.md
index 656b435..29026d1 100644
--- a/apps/tool/tool.1.md
+++ b/apps/tool/tool.1.md
@@ -25,9 +25,6 @@ Collection of tools to run on a SPOC file
 \-\-version, -e
 :   Print version information and exit
 
-\-\-random-seed=*#*, -r *#*
-:   Set the random seed equal to *#*
-
 \-\-resolution=*#*
 :   Set the resolution used for upsampling
 
-- 
2.43.0


From 7e2364536c01d244eb42b5ea487d7810cc9478a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:38 +0000
Subject: [PATCH 35/45] fix: refuse to transform a file in place instead of
 destroying it

---
 apps/transform/transform.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/apps/transform/transform.cpp b/apps/transform/transform.cpp
index c36e42f..e3855ef 100644
--- a/apps/transform/transform.cpp
+++ b/apps/transform/transform.cpp
@@ -3,6 +3,7 @@
 #include "transform.h"
 #include "transform_cmd.h"
 #include <cctype>
+#include <filesystem>
 #include <iostream>
 #include <stdexcept>
 
@@ -50,6 +51,13 @@ int main (int argc, char **argv)
                 clog << "\t" << c.name << "\t" << c.params << endl;
         }
 
+        // The input is read while the output is written, so opening the
+        // output would destroy an input that is the same file
+        error_code ec;
+        if (filesystem::is_regular_file (args.input_fn, ec)
+            && filesystem::equivalent (args.input_fn, args.output_fn, ec))
+            throw runtime_error ("The input and the output can't be the same file");
+
         // Get the input stream
         input_stream is (args.verbose, args.input_fn);
 
-- 
2.43.0


From 4541620b3fd345567b19ddd8dd8945b75625d225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:29 +0000
Subject: [PATCH 36/45] fix: rescaling points along a dimension without an
 extent divided by zero and converted a NaN to an integer

---
 spoc/extent.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/spoc/extent.h b/spoc/extent.h
index 7e8c762..4099506 100644
--- a/spoc/extent.h
+++ b/spoc/extent.h
@@ -105,14 +105,15 @@ inline spoc::extent::extent decode_extent (const extent_pair &bytes)
 
 constexpr double max_value = (1ul << 62);
 
+// Coordinates along a dimension without an extent are rescaled to 0
 inline spoc::point::point<uint64_t> rescale (const spoc::point::point<double> &p,
     const spoc::point::point<double> &s,
     const spoc::point::point<double> &minp)
 {
     spoc::point::point<uint64_t> q;
-    q.x = (p.x - minp.x) * max_value / s.x;
-    q.y = (p.y - minp.y) * max_value / s.y;
-    q.z = (p.z - minp.z) * max_value / s.z;
+    q.x = s.x == 0.0 ? 0.0 : (p.x - minp.x) * max_value / s.x;
+    q.y = s.y == 0.0 ? 0.0 : (p.y - minp.y) * max_value / s.y;
+    q.z = s.z == 0.0 ? 0.0 : (p.z - minp.z) * max_value / s.z;
     return q;
 }
 
-- 
2.43.0


From bacfe924d5679b0ee22984be7b3b1afd08ca5a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:17 +0000
Subject: [PATCH 37/45] fix: compressing or decompressing a buffer of 4 GiB or
 more lost all but the last part of it

---
 spoc/compression.h | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/spoc/compression.h b/spoc/compression.h
index 09761d8..f9cd8de 100644
--- a/spoc/compression.h
+++ b/spoc/compression.h
@@ -1,6 +1,8 @@
 #pragma once
 
+#include <algorithm>
 #include <cassert>
+#include <climits>
 #include <cstdint>
 #include <iostream>
 #include <stdexcept>
@@ -90,14 +92,20 @@ inline std::vector<uint8_t> compress (const uint8_t *p, const size_t nbytes, con
     zlib_deflator deflator (level);
 
     // Get bytes directly from the input vector
-    deflator.s.avail_in = nbytes;
     deflator.s.next_in = const_cast<unsigned char *> (p);
 
+    // zlib counts available bytes with an unsigned int
+    size_t bytes_left = nbytes;
+
     do {
+        const size_t n = std::min (bytes_left, size_t (UINT_MAX - deflator.s.avail_in));
+        deflator.s.avail_in += n;
+        bytes_left -= n;
+
         // Compress from input to output buffer
         deflator.s.avail_out = BUFFER_SIZE;
         deflator.s.next_out = &output_buffer[0];
-        deflate (&deflator.s, Z_FINISH);
+        deflate (&deflator.s, bytes_left == 0 ? Z_FINISH : Z_NO_FLUSH);
         const auto compressed_bytes = BUFFER_SIZE - deflator.s.avail_out;
 
         // Save compressed bytes
@@ -105,7 +113,7 @@ inline std::vector<uint8_t> compress (const uint8_t *p, const size_t nbytes, con
         output.insert (output.end (),
             output_buffer.begin (),
             output_buffer.begin () + compressed_bytes);
-    } while (deflator.s.avail_out == 0);
+    } while (deflator.s.avail_out == 0 || bytes_left != 0);
 
     return output;
 }
@@ -155,11 +163,17 @@ inline std::vector<uint8_t> decompress (const std::vector<uint8_t> &input)
     zlib_inflator inflator;
 
     // Get bytes directory from input vector
-    inflator.s.avail_in = input.size ();
     inflator.s.next_in = const_cast<unsigned char *> (&input[0]);
 
+    // zlib counts available bytes with an unsigned int
+    size_t bytes_left = input.size ();
+
     int ret = Z_OK;
     do {
+        const size_t n = std::min (bytes_left, size_t (UINT_MAX - inflator.s.avail_in));
+        inflator.s.avail_in += n;
+        bytes_left -= n;
+
         inflator.s.avail_out = BUFFER_SIZE;
         inflator.s.next_out = &output_buffer[0];
         ret = inflate (&inflator.s, Z_NO_FLUSH);
@@ -179,7 +193,7 @@ inline std::vector<uint8_t> decompress (const std::vector<uint8_t> &input)
         output.insert (output.end (),
             output_buffer.begin (),
             output_buffer.begin () + decompressed_bytes);
-    } while (inflator.s.avail_out == 0);
+    } while (inflator.s.avail_out == 0 || (bytes_left != 0 && ret != Z_STREAM_END));
 
     // The end of the deflate stream, and its checksum, must be present
     if (ret != Z_STREAM_END)
-- 
2.43.0


From 8148f6d0a5755f950a9cb3c7f21fe003bb38e906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:31 +0000
Subject: [PATCH 38/45] fix: radius search missed neighbors at exactly the
 radius because of rounding in their voxel indexes

---
 spoc/radius_search.h | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/spoc/radius_search.h b/spoc/radius_search.h
index 3b5486c..2f00901 100644
--- a/spoc/radius_search.h
+++ b/spoc/radius_search.h
@@ -1,5 +1,7 @@
 #pragma once
 
+#include <algorithm>
+#include <limits>
 #include <vector>
 
 #include "spoc/point_record.h"
@@ -209,6 +211,24 @@ std::vector<size_t> get_neighbors (
     return neighbors;
 }
 
+/// @brief Get the size of the voxels for a radius search
+/// @param points Point cloud
+/// @param radius Radius to search in meters
+///
+/// The size is larger than the radius by more than the rounding errors in the
+/// computation of voxel indexes. So, the voxels of two points that are within
+/// the radius of each other are always neighbors.
+template<typename T>
+inline double get_voxel_size (const T &points, const double radius)
+{
+    if (points.size () == 0)
+        return radius;
+    const auto e = spoc::extent::get_extent (points);
+    const auto s = e.maxp - e.minp;
+    const double side = std::max (s.x, std::max (s.y, s.z));
+    return radius + (radius + side) * 4 * std::numeric_limits<double>::epsilon ();
+}
+
 /// @brief Get neighbors within a specified radius
 /// @tparam T Point cloud type
 /// @tparam U Point cloud indexes type
@@ -257,11 +277,14 @@ void radius_search (
     V neighbor_op,
     const size_t max_neighbors = 32)
 {
+    // Points within the radius of each other must be in neighboring voxels
+    const double voxel_size = get_voxel_size (points, radius);
+
     // Get an i,j,k for each point index
-    const auto point_voxel_indexes = spoc::voxel::get_voxel_indexes (points, point_indexes, radius);
+    const auto point_voxel_indexes = spoc::voxel::get_voxel_indexes (points, point_indexes, voxel_size);
 
     // Get an i,j,k for each neighbor index
-    const auto neighbor_voxel_indexes = spoc::voxel::get_voxel_indexes (points, neighbor_indexes, radius);
+    const auto neighbor_voxel_indexes = spoc::voxel::get_voxel_indexes (points, neighbor_indexes, voxel_size);
 
     // Map each unique i,j,k to a vector of indexes back into 'points'
     const auto neighbor_vim = spoc::voxel::get_voxel_index_map (neighbor_voxel_indexes);
-- 
2.43.0


From c60eeb4fbbef664084c208166a60724a17abbca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:15 +0000
Subject: [PATCH 39/45] fix: tile made one tile too many, or all points one
 tile, in very large and very small extents

The amount that was added to the extent before it gets divided into the
requested number of tiles was a constant, which gets lost in extents of 2^30
or more, and is larger than the extent when that is small.
---
 apps/tile/tile.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/apps/tile/tile.h b/apps/tile/tile.h
index b9aea78..d3cb3ef 100644
--- a/apps/tile/tile.h
+++ b/apps/tile/tile.h
@@ -18,9 +18,12 @@ double get_tile_size (const spoc::extent::extent &e, const size_t tiles)
 {
     // Get difference in X and Y extents
     //
-    // Add a small amount to handle rounding
-    const double dx = e.maxp.x - e.minp.x + std::numeric_limits<float>::epsilon ();
-    const double dy = e.maxp.y - e.minp.y + std::numeric_limits<float>::epsilon ();
+    // Add a small amount to handle rounding. The amount must depend on the
+    // extent: A fixed one gets lost in a large extent, and dominates a
+    // small one.
+    const double rounding = 1.0 + 4.0 * std::numeric_limits<double>::epsilon ();
+    const double dx = (e.maxp.x - e.minp.x) * rounding;
+    const double dy = (e.maxp.y - e.minp.y) * rounding;
 
     // Determine dimension of one side of a tile
     const double tile_size = ((dx > dy) ? dx / tiles : dy / tiles);
-- 
2.43.0


From 0b7edfd55a951d1638c0f93ede800209763f386a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:15 +0000
Subject: [PATCH 40/45] fix: tile mixed up tiles when their numbers did not fit
 in 64 bits

---
 apps/tile/tile.h | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/apps/tile/tile.h b/apps/tile/tile.h
index d3cb3ef..7f3bea5 100644
--- a/apps/tile/tile.h
+++ b/apps/tile/tile.h
@@ -5,6 +5,7 @@
 #include <cassert>
 #include <iostream>
 #include <limits>
+#include <stdexcept>
 #include <vector>
 #include <unordered_map>
 
@@ -37,11 +38,20 @@ std::vector<size_t> get_tile_indexes (const T &p,
     const double tile_size_x,
     const double tile_size_y)
 {
-    // Get difference in X extent
+    // Get difference in X and Y extents
     const double dx = e.maxp.x - e.minp.x;
+    const double dy = e.maxp.y - e.minp.y;
+
+    // Get the number of tiles in each direction
+    const double nx = tile_size_x > 0.0 ? dx / tile_size_x + 1.0 : 1.0;
+    const double ny = tile_size_y > 0.0 ? dy / tile_size_y + 1.0 : 1.0;
+
+    // All tile numbers must be representable
+    if (!p.empty () && nx * ny >= static_cast<double> (std::numeric_limits<size_t>::max ()))
+        throw std::runtime_error ("The tile size is too small");
 
     // Compute the stride of the number of tiles
-    const size_t stride = tile_size_x > 0.0 ? dx / tile_size_x + 1.0 : 1.0;
+    const size_t stride = nx;
 
     // Allocate return value
     std::vector<size_t> indexes (p.size ());
-- 
2.43.0


From f46dc999f361df68a02f34530f9691f7af8c99d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:48 +0000
Subject: [PATCH 41/45] fix: replace values above 2147483647 in transform

The classification, the point id and the extra fields can have such values,
but the replace and the replace-not commands refused them.
---
 apps/transform/transform.h | 14 +++++++-------
 spoc/app_utils.h           |  8 ++++----
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/apps/transform/transform.h b/apps/transform/transform.h
index c0389de..2f5d41a 100644
--- a/apps/transform/transform.h
+++ b/apps/transform/transform.h
@@ -184,8 +184,8 @@ OP get_quantize_op (const double precision)
 
 // Replace values in a field
 OP get_replace_op (const std::string &field_name,
-    const unsigned v1,
-    const unsigned v2,
+    const uint64_t v1,
+    const uint64_t v2,
     const size_t extra_fields)
 {
     using namespace spoc::app_utils;
@@ -234,7 +234,7 @@ OP get_replace_op (const std::string &field_name,
 
 // Replace all values that are not equal to a value with another value
 OP get_replace_not_op (const std::string &field_name,
-    std::vector<unsigned> v,
+    std::vector<uint64_t> v,
     const size_t extra_fields)
 {
     using namespace spoc::app_utils;
@@ -252,7 +252,7 @@ OP get_replace_not_op (const std::string &field_name,
         throw std::runtime_error ("Not enough values were specified in the replace-not command");
 
     // Get the last value
-    const int r = v.back ();
+    const uint64_t r = v.back ();
 
     // Remove it
     v.pop_back ();
@@ -562,8 +562,8 @@ void apply (std::istream &is,
             // Get fields and values
             std::string s = c.params;
             const auto l = consume_field_name (s);
-            const auto v1 = consume_int (s);
-            const auto v2 = consume_int (s);
+            const auto v1 = consume_uint64 (s);
+            const auto v2 = consume_uint64 (s);
             ops.push_back (get_replace_op (l, v1, v2, h.extra_fields));
         }
         else if (c.name == "replace-not")
@@ -571,7 +571,7 @@ void apply (std::istream &is,
             // Get fields and values
             std::string s = c.params;
             const auto l = consume_field_name (s);
-            auto v = consume_ints (s);
+            auto v = consume_uint64s (s);
             ops.push_back (get_replace_not_op (l, v, h.extra_fields));
         }
         else if (c.name == "rotate-x")
diff --git a/spoc/app_utils.h b/spoc/app_utils.h
index 8bc940d..198b30e 100644
--- a/spoc/app_utils.h
+++ b/spoc/app_utils.h
@@ -178,16 +178,16 @@ uint64_t consume_uint64 (std::string &s)
     return v;
 }
 
-std::vector<unsigned> consume_ints (std::string &s)
+std::vector<uint64_t> consume_uint64s (std::string &s)
 {
-    std::vector<unsigned> vs;
+    std::vector<uint64_t> vs;
     // Get the first one
-    unsigned v = consume_int (s);
+    uint64_t v = consume_uint64 (s);
     vs.push_back (v);
     // Get the rest
     while (!s.empty ())
     {
-        v = consume_int (s);
+        v = consume_uint64 (s);
         vs.push_back (v);
     }
     return vs;
-- 
2.43.0


From b007628db204dd57677df9af8d6229b4f4f433c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:50 +0000
Subject: [PATCH 42/45] fix: refuse to quantize to a precision of zero

The transform command replaced all coordinates with NaN. The library function
has the precondition that the precision is not zero.
---
 apps/transform/transform.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/apps/transform/transform.h b/apps/transform/transform.h
index 2f5d41a..09a4f2e 100644
--- a/apps/transform/transform.h
+++ b/apps/transform/transform.h
@@ -555,6 +555,8 @@ void apply (std::istream &is,
             // Get precision
             std::string s = c.params;
             const auto v = consume_double (s);
+            if (v == 0.0)
+                throw std::runtime_error ("The quantize precision must not be zero");
             ops.push_back (get_quantize_op (v));
         }
         else if (c.name == "replace")
-- 
2.43.0


From 7d4353da4ae6916e15c42d78ca90023b1c05c0bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:02:04 +0000
Subject: [PATCH 43/45] fix: compress a stream that can not be read

If reading failed before the end of the input stream, for example because the
stream is a directory, the function never returned.
---
 spoc/compression.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/spoc/compression.h b/spoc/compression.h
index f9cd8de..cc86124 100644
--- a/spoc/compression.h
+++ b/spoc/compression.h
@@ -134,6 +134,10 @@ inline void compress (std::istream &is, std::ostream &os, const int level)
     do {
         // Read into buffer from stream
         is.read (reinterpret_cast<char *> (&input_buffer[0]), BUFFER_SIZE);
+        // GCOV_EXCL_START
+        if (!is && !is.eof ())
+            throw std::runtime_error (zlib_error_string (Z_ERRNO));
+        // GCOV_EXCL_STOP
         deflator.s.avail_in = is.gcount();
         deflator.s.next_in = &input_buffer[0];
 
-- 
2.43.0


From 1dadc398ee92c4ba4146a6b052fc13a18fc45133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:02:04 +0000
Subject: [PATCH 44/45] fix: report failed writes of the compression stream
 functions

The last bytes were left in the buffer of the stream, so that a failure to
write them was not reported.
---
 spoc/compression.h | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/spoc/compression.h b/spoc/compression.h
index cc86124..8538248 100644
--- a/spoc/compression.h
+++ b/spoc/compression.h
@@ -156,6 +156,13 @@ inline void compress (std::istream &is, std::ostream &os, const int level)
             // GCOV_EXCL_STOP
         } while (deflator.s.avail_out == 0);
     } while (!is.eof ());
+
+    // Bytes may still be buffered
+    os.flush ();
+    // GCOV_EXCL_START
+    if (os.fail ())
+        throw std::runtime_error (zlib_error_string (Z_ERRNO));
+    // GCOV_EXCL_STOP
 }
 
 inline std::vector<uint8_t> decompress (const std::vector<uint8_t> &input)
@@ -267,6 +274,13 @@ inline void decompress (std::istream &is, std::ostream &os)
     // The end of the deflate stream, and its checksum, must be present
     if (!done)
         throw std::runtime_error (zlib_error_string (Z_DATA_ERROR));
+
+    // Bytes may still be buffered
+    os.flush ();
+    // GCOV_EXCL_START
+    if (os.fail ())
+        throw std::runtime_error (zlib_error_string (Z_ERRNO));
+    // GCOV_EXCL_STOP
 }
 
 } // namespace compression
-- 
2.43.0


From 491ae09730322f1c3218ea5259ba04a4e7c447c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:06:11 +0000
Subject: [PATCH 45/45] fix: refuse to write a header with an oversized WKT

The length of the WKT was written modulo 65536, followed by all of its bytes,
when the WKT was set after the header was constructed.
---
 spoc/header.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spoc/header.h b/spoc/header.h
index 436745c..114ad36 100644
--- a/spoc/header.h
+++ b/spoc/header.h
@@ -136,6 +136,8 @@ inline void write_header (std::ostream &s, const header &h)
 {
     if (!h.check_signature ())
         throw std::runtime_error ("Invalid spoc file format");
+    if (h.wkt.size () > 0xFFFF)
+        throw std::runtime_error ("The OGC WKT length may not exceed 65535");
     s.write (reinterpret_cast<const char*>(h.signature), 4 * sizeof(char));
     s.write (reinterpret_cast<const char*>(&h.major_version), sizeof(uint8_t));
     s.write (reinterpret_cast<const char*>(&h.minor_version), sizeof(uint8_t));
-- 
2.43.0

