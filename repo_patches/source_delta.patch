From 61a0f8f2bb817e548209536ac5030ae51af225b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:20 +0000
Subject: [PATCH 01/17] fix: report truncated, malformed and unreadable input
 instead of looping or ignoring it

The section loop and the search for the end tag only looked at eofbit, so a failed or bad stream looped for ever, a
truncated section was returned as data (or hit an assert in debug builds), and a missing end tag went unnoticed. Read
through a stream that throws on failure, and search the end tag byte by byte since it may directly follow binary data.
---
 src/load_msh.cpp                 | 42 +++++++++++++++++++++++++++++---
 src/load_msh_data.cpp            |  4 +--
 src/load_msh_elements.cpp        |  8 +++---
 src/load_msh_entities.cpp        | 34 +++++++++++++-------------
 src/load_msh_nodes.cpp           | 24 +++++++++---------
 src/load_msh_physical_groups.cpp |  2 +-
 6 files changed, 74 insertions(+), 40 deletions(-)

diff --git a/src/load_msh.cpp b/src/load_msh.cpp
index 1c65163..7859f0b 100644
--- a/src/load_msh.cpp
+++ b/src/load_msh.cpp
@@ -11,7 +11,10 @@
 #include "load_msh_physical_groups.h"
 #include "load_msh_post_process.h"
 
+#include <mshio/exception.h>
+
 #include <cassert>
+#include <cctype>
 #include <fstream>
 #include <iostream>
 #include <string>
@@ -20,18 +23,26 @@ namespace mshio {
 
 void forward_to(std::istream& in, const std::string& flag)
 {
-    std::string buf;
-    while (!in.eof() && buf != flag) {
-        in >> buf;
+    // The flag may directly follow the binary payload of a section, so it is searched byte by byte.
+    size_t matched = 0;
+    while (matched != flag.size()) {
+        const char ch = static_cast<char>(in.get());
+        matched = (ch == flag[matched]) ? matched + 1 : (ch == flag[0]) ? 1 : 0;
+        if (matched == flag.size()) {
+            const auto next = in.peek();
+            if (next != std::char_traits<char>::eof() && !std::isspace(next)) matched = 0;
+        }
     }
 }
 
-MshSpec load_msh(std::istream& in)
+MshSpec load_msh_sections(std::istream& in)
 {
     MshSpec spec;
     std::string buf, end_str;
 
     while (!in.eof()) {
+        in >> std::ws;
+        if (in.eof()) break;
         buf.clear();
         in >> buf;
         if (buf.size() == 0 || buf[0] != '$') continue;
@@ -68,6 +79,29 @@ MshSpec load_msh(std::istream& in)
     return spec;
 }
 
+MshSpec load_msh(std::istream& in)
+{
+    if (in.fail()) {
+        throw InvalidFormat("Input stream is not readable!");
+    }
+
+    // Anything that cannot be read or parsed ends the load with an exception.
+    std::istream checked(in.rdbuf());
+    checked.exceptions(std::ios_base::failbit | std::ios_base::badbit);
+
+    MshSpec spec;
+    try {
+        spec = load_msh_sections(checked);
+    } catch (const std::ios_base::failure&) {
+        if (checked.bad()) throw;
+        throw InvalidFormat("MSH file is truncated or malformed!");
+    }
+    if ((in.exceptions() & std::ios_base::eofbit) == 0) {
+        in.setstate(std::ios_base::eofbit);
+    }
+    return spec;
+}
+
 MshSpec load_msh(const std::string& filename)
 {
     std::ifstream fin(filename.c_str(), std::ios::binary);
diff --git a/src/load_msh_data.cpp b/src/load_msh_data.cpp
index 9063532..6fcbac9 100644
--- a/src/load_msh_data.cpp
+++ b/src/load_msh_data.cpp
@@ -34,7 +34,7 @@ void load_data_header(std::istream& in, DataHeader& header)
     for (size_t i = 0; i < num_int_tags; i++) {
         in >> header.int_tags[i];
     }
-    assert(in.good());
+    assert(!in.fail());
 }
 
 namespace v41 {
@@ -129,7 +129,7 @@ void load_data(std::istream& in,
             }
         }
     }
-    assert(in.good());
+    assert(!in.fail());
 }
 
 } // namespace internal
diff --git a/src/load_msh_elements.cpp b/src/load_msh_elements.cpp
index 9ec3bc6..49df5d6 100644
--- a/src/load_msh_elements.cpp
+++ b/src/load_msh_elements.cpp
@@ -27,7 +27,7 @@ void load_elements_ascii(std::istream& in, MshSpec& spec)
     in >> elements.num_elements;
     in >> elements.min_element_tag;
     in >> elements.max_element_tag;
-    assert(in.good());
+    assert(!in.fail());
 
     elements.entity_blocks.resize(elements.num_entity_blocks);
     for (size_t i = 0; i < elements.num_entity_blocks; i++) {
@@ -45,7 +45,7 @@ void load_elements_ascii(std::istream& in, MshSpec& spec)
                 in >> block.data[j * (n + 1) + k];
             }
         }
-        assert(in.good());
+        assert(!in.fail());
     }
 }
 
@@ -57,7 +57,7 @@ void load_elements_binary(std::istream& in, MshSpec& spec)
     in.read(reinterpret_cast<char*>(&elements.num_elements), sizeof(size_t));
     in.read(reinterpret_cast<char*>(&elements.min_element_tag), sizeof(size_t));
     in.read(reinterpret_cast<char*>(&elements.max_element_tag), sizeof(size_t));
-    assert(in.good());
+    assert(!in.fail());
 
     elements.entity_blocks.resize(elements.num_entity_blocks);
     for (size_t i = 0; i < elements.num_entity_blocks; i++) {
@@ -72,7 +72,7 @@ void load_elements_binary(std::istream& in, MshSpec& spec)
         block.data.resize(block.num_elements_in_block * (n + 1));
         in.read(reinterpret_cast<char*>(block.data.data()),
             static_cast<std::streamsize>(sizeof(size_t) * block.data.size()));
-        assert(in.good());
+        assert(!in.fail());
     }
 }
 } // namespace v41
diff --git a/src/load_msh_entities.cpp b/src/load_msh_entities.cpp
index 83f0cc1..08de7fe 100644
--- a/src/load_msh_entities.cpp
+++ b/src/load_msh_entities.cpp
@@ -17,7 +17,7 @@ void load_entities_ascii(std::istream& in, MshSpec& spec)
     in >> num_curves;
     in >> num_surfaces;
     in >> num_volumes;
-    assert(in.good());
+    assert(!in.fail());
 
     Entities& entities = spec.entities;
     entities.points.resize(num_points);
@@ -108,7 +108,7 @@ void load_entities_ascii(std::istream& in, MshSpec& spec)
         }
     }
 
-    assert(in.good());
+    assert(!in.fail());
 }
 
 void load_entities_binary(std::istream& in, MshSpec& spec)
@@ -119,7 +119,7 @@ void load_entities_binary(std::istream& in, MshSpec& spec)
     in.read(reinterpret_cast<char*>(&num_curves), sizeof(size_t));
     in.read(reinterpret_cast<char*>(&num_surfaces), sizeof(size_t));
     in.read(reinterpret_cast<char*>(&num_volumes), sizeof(size_t));
-    assert(in.good());
+    assert(!in.fail());
 
     Entities& entities = spec.entities;
     entities.points.resize(num_points);
@@ -135,12 +135,12 @@ void load_entities_binary(std::istream& in, MshSpec& spec)
         in.read(reinterpret_cast<char*>(&point.z), sizeof(double));
         size_t num_physical_groups;
         in.read(reinterpret_cast<char*>(&num_physical_groups), sizeof(size_t));
-        assert(in.good());
+        assert(!in.fail());
 
         point.physical_group_tags.resize(num_physical_groups);
         in.read(reinterpret_cast<char*>(point.physical_group_tags.data()),
             static_cast<std::streamsize>(sizeof(int) * num_physical_groups));
-        assert(in.good());
+        assert(!in.fail());
     }
 
     for (size_t i = 0; i < num_curves; i++) {
@@ -154,21 +154,21 @@ void load_entities_binary(std::istream& in, MshSpec& spec)
         in.read(reinterpret_cast<char*>(&curve.max_z), sizeof(double));
         size_t num_physical_groups;
         in.read(reinterpret_cast<char*>(&num_physical_groups), sizeof(size_t));
-        assert(in.good());
+        assert(!in.fail());
 
         curve.physical_group_tags.resize(num_physical_groups);
         in.read(reinterpret_cast<char*>(curve.physical_group_tags.data()),
             static_cast<std::streamsize>(sizeof(int) * num_physical_groups));
-        assert(in.good());
+        assert(!in.fail());
 
         size_t num_boundary_points;
         in.read(reinterpret_cast<char*>(&num_boundary_points), sizeof(size_t));
-        assert(in.good());
+        assert(!in.fail());
 
         curve.boundary_point_tags.resize(num_boundary_points);
         in.read(reinterpret_cast<char*>(curve.boundary_point_tags.data()),
             static_cast<std::streamsize>(sizeof(int) * num_boundary_points));
-        assert(in.good());
+        assert(!in.fail());
     }
 
     for (size_t i = 0; i < num_surfaces; i++) {
@@ -182,21 +182,21 @@ void load_entities_binary(std::istream& in, MshSpec& spec)
         in.read(reinterpret_cast<char*>(&surface.max_z), sizeof(double));
         size_t num_physical_groups;
         in.read(reinterpret_cast<char*>(&num_physical_groups), sizeof(size_t));
-        assert(in.good());
+        assert(!in.fail());
 
         surface.physical_group_tags.resize(num_physical_groups);
         in.read(reinterpret_cast<char*>(surface.physical_group_tags.data()),
             static_cast<std::streamsize>(sizeof(int) * num_physical_groups));
-        assert(in.good());
+        assert(!in.fail());
 
         size_t num_boundary_curves;
         in.read(reinterpret_cast<char*>(&num_boundary_curves), sizeof(size_t));
-        assert(in.good());
+        assert(!in.fail());
 
         surface.boundary_curve_tags.resize(num_boundary_curves);
         in.read(reinterpret_cast<char*>(surface.boundary_curve_tags.data()),
             static_cast<std::streamsize>(sizeof(int) * num_boundary_curves));
-        assert(in.good());
+        assert(!in.fail());
     }
 
     for (size_t i = 0; i < num_volumes; i++) {
@@ -210,21 +210,21 @@ void load_entities_binary(std::istream& in, MshSpec& spec)
         in.read(reinterpret_cast<char*>(&volume.max_z), sizeof(double));
         size_t num_physical_groups;
         in.read(reinterpret_cast<char*>(&num_physical_groups), sizeof(size_t));
-        assert(in.good());
+        assert(!in.fail());
 
         volume.physical_group_tags.resize(num_physical_groups);
         in.read(reinterpret_cast<char*>(volume.physical_group_tags.data()),
             static_cast<std::streamsize>(sizeof(int) * num_physical_groups));
-        assert(in.good());
+        assert(!in.fail());
 
         size_t num_boundary_surfaces;
         in.read(reinterpret_cast<char*>(&num_boundary_surfaces), sizeof(size_t));
-        assert(in.good());
+        assert(!in.fail());
 
         volume.boundary_surface_tags.resize(num_boundary_surfaces);
         in.read(reinterpret_cast<char*>(volume.boundary_surface_tags.data()),
             static_cast<std::streamsize>(sizeof(int) * num_boundary_surfaces));
-        assert(in.good());
+        assert(!in.fail());
     }
 }
 
diff --git a/src/load_msh_nodes.cpp b/src/load_msh_nodes.cpp
index f6c4627..390c8a6 100644
--- a/src/load_msh_nodes.cpp
+++ b/src/load_msh_nodes.cpp
@@ -21,7 +21,7 @@ void load_nodes_ascii(std::istream& in, MshSpec& spec)
     in >> nodes.num_nodes;
     in >> nodes.min_node_tag;
     in >> nodes.max_node_tag;
-    assert(in.good());
+    assert(!in.fail());
     nodes.entity_blocks.resize(nodes.num_entity_blocks);
     for (size_t i = 0; i < nodes.num_entity_blocks; i++) {
         NodeBlock& block = nodes.entity_blocks[i];
@@ -29,13 +29,13 @@ void load_nodes_ascii(std::istream& in, MshSpec& spec)
         in >> block.entity_tag;
         in >> block.parametric;
         in >> block.num_nodes_in_block;
-        assert(in.good());
+        assert(!in.fail());
 
         block.tags.resize(block.num_nodes_in_block);
         for (size_t j = 0; j < block.num_nodes_in_block; j++) {
             in >> block.tags[j];
         }
-        assert(in.good());
+        assert(!in.fail());
 
         assert(block.parametric >= 0 && block.parametric <= 3);
         const size_t entries_per_node =
@@ -46,7 +46,7 @@ void load_nodes_ascii(std::istream& in, MshSpec& spec)
                 in >> block.data[j * entries_per_node + k];
             }
         }
-        assert(in.good());
+        assert(!in.fail());
     }
 }
 
@@ -58,7 +58,7 @@ void load_nodes_binary(std::istream& in, MshSpec& spec)
     in.read(reinterpret_cast<char*>(&nodes.num_nodes), sizeof(size_t));
     in.read(reinterpret_cast<char*>(&nodes.min_node_tag), sizeof(size_t));
     in.read(reinterpret_cast<char*>(&nodes.max_node_tag), sizeof(size_t));
-    assert(in.good());
+    assert(!in.fail());
     nodes.entity_blocks.resize(nodes.num_entity_blocks);
     for (size_t i = 0; i < nodes.num_entity_blocks; i++) {
         NodeBlock& block = nodes.entity_blocks[i];
@@ -66,12 +66,12 @@ void load_nodes_binary(std::istream& in, MshSpec& spec)
         in.read(reinterpret_cast<char*>(&block.entity_tag), sizeof(int));
         in.read(reinterpret_cast<char*>(&block.parametric), sizeof(int));
         in.read(reinterpret_cast<char*>(&block.num_nodes_in_block), sizeof(size_t));
-        assert(in.good());
+        assert(!in.fail());
 
         block.tags.resize(block.num_nodes_in_block);
         in.read(reinterpret_cast<char*>(block.tags.data()),
             static_cast<std::streamsize>(sizeof(size_t) * block.num_nodes_in_block));
-        assert(in.good());
+        assert(!in.fail());
 
         const size_t entries_per_node =
             static_cast<size_t>(3 + ((block.parametric == 1) ? block.entity_dim : 0));
@@ -79,7 +79,7 @@ void load_nodes_binary(std::istream& in, MshSpec& spec)
         in.read(reinterpret_cast<char*>(block.data.data()),
             static_cast<std::streamsize>(
                 sizeof(double) * block.num_nodes_in_block * entries_per_node));
-        assert(in.good());
+        assert(!in.fail());
     }
 }
 
@@ -98,7 +98,7 @@ void load_nodes_ascii(std::istream& in, MshSpec& spec)
     block.entity_tag = 0; // Same as above.
     block.parametric = 0;
     in >> block.num_nodes_in_block;
-    assert(in.good());
+    assert(!in.fail());
     nodes.num_nodes += block.num_nodes_in_block;
 
     block.tags.resize(block.num_nodes_in_block);
@@ -108,7 +108,7 @@ void load_nodes_ascii(std::istream& in, MshSpec& spec)
         in >> block.data[i * 3];
         in >> block.data[i * 3 + 1];
         in >> block.data[i * 3 + 2];
-        assert(in.good());
+        assert(!in.fail());
     }
 
     if (block.num_nodes_in_block > 0) {
@@ -130,14 +130,14 @@ void load_nodes_binary(std::istream& in, MshSpec& spec)
     block.entity_tag = 0; // Same as above.
     block.parametric = 0;
     in >> block.num_nodes_in_block;
-    assert(in.good());
+    assert(!in.fail());
     nodes.num_nodes += block.num_nodes_in_block;
 
     block.tags.resize(block.num_nodes_in_block);
     block.data.resize(block.num_nodes_in_block * 3);
     eat_white_space(in, 1);
     for (size_t i = 0; i < block.num_nodes_in_block; i++) {
-        assert(in.good());
+        assert(!in.fail());
         int tag;
         in.read(reinterpret_cast<char*>(&tag), sizeof(int));
         block.tags[i] = static_cast<size_t>(tag);
diff --git a/src/load_msh_physical_groups.cpp b/src/load_msh_physical_groups.cpp
index c857d4a..5c539b0 100644
--- a/src/load_msh_physical_groups.cpp
+++ b/src/load_msh_physical_groups.cpp
@@ -21,7 +21,7 @@ void load_physical_groups(std::istream& in, MshSpec& spec)
         in >> group.tag;
         in >> std::quoted(group.name);
     }
-    assert(in.good());
+    assert(!in.fail());
 }
 
 } // namespace mshio
-- 
2.43.0


From 4d5dabbca5cb9e22e8042ddc58a104f7c2b9b35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:03 +0000
Subject: [PATCH 02/17] fix: refuse counts in MSH files that are negative or
 overflow

Products and sums of counts wrapped around, so that a damaged file could make the loader write outside its arrays or
return arrays that do not have the length their counts promise.
---
 src/io_utils.cpp                 | 20 ++++++++++++++++++++
 src/io_utils.h                   |  7 +++++++
 src/load_msh_curves.cpp          |  8 ++++----
 src/load_msh_data.cpp            | 13 ++++++++-----
 src/load_msh_elements.cpp        | 13 +++++++------
 src/load_msh_nodes.cpp           | 19 ++++++++++++++-----
 src/load_msh_patches.cpp         | 10 ++++++----
 src/load_msh_physical_groups.cpp |  3 ++-
 8 files changed, 68 insertions(+), 25 deletions(-)

diff --git a/src/io_utils.cpp b/src/io_utils.cpp
index 56ef54a..6ebe825 100644
--- a/src/io_utils.cpp
+++ b/src/io_utils.cpp
@@ -1,5 +1,7 @@
 #include "io_utils.h"
 
+#include <mshio/exception.h>
+
 #include <istream>
 
 namespace mshio {
@@ -18,5 +20,23 @@ void eat_white_space(std::istream& in, size_t count)
     }
 }
 
+size_t num_entries_checked(size_t count, size_t entries_per_item, size_t extra)
+{
+    constexpr size_t max_entries = std::numeric_limits<size_t>::max() / sizeof(double);
+    if (extra > max_entries ||
+        (entries_per_item > 0 && count > (max_entries - extra) / entries_per_item)) {
+        throw InvalidFormat("Invalid number of entries detected!");
+    }
+    return count * entries_per_item + extra;
+}
+
+size_t count_checked(int count)
+{
+    if (count < 0) {
+        throw InvalidFormat("Negative count detected!");
+    }
+    return static_cast<size_t>(count);
+}
+
 } // namespace mshio
 
diff --git a/src/io_utils.h b/src/io_utils.h
index a8255cb..343a7e2 100644
--- a/src/io_utils.h
+++ b/src/io_utils.h
@@ -7,5 +7,12 @@ namespace mshio {
 
 void eat_white_space(std::istream& in, size_t count = std::numeric_limits<size_t>::max());
 
+// Number of entries in `count` items of `entries_per_item` entries each, plus `extra` more.  Throws
+// InvalidFormat if that many entries cannot exist, which means that the counts in the file are damaged.
+size_t num_entries_checked(size_t count, size_t entries_per_item, size_t extra = 0);
+
+// A count that is stored as a signed integer.  Throws InvalidFormat if it is negative.
+size_t count_checked(int count);
+
 } // namespace mshio
 
diff --git a/src/load_msh_curves.cpp b/src/load_msh_curves.cpp
index 9e21d15..83872e2 100644
--- a/src/load_msh_curves.cpp
+++ b/src/load_msh_curves.cpp
@@ -22,8 +22,8 @@ void load_curves_ascii(std::istream& in, MshSpec& spec)
         in >> curve.num_knots;
         in >> curve.with_weights;
 
-        size_t num_entries =
-            curve.num_control_points * ((curve.with_weights > 0) ? 4 : 3) + curve.num_knots;
+        size_t num_entries = num_entries_checked(
+            curve.num_control_points, (curve.with_weights > 0) ? 4 : 3, curve.num_knots);
         curve.data.resize(num_entries);
         for (size_t j = 0; j < num_entries; j++) {
             in >> curve.data[j];
@@ -50,8 +50,8 @@ void load_curves_binary(std::istream& in, MshSpec& spec)
         in >> curve.with_weights;
 
         eat_white_space(in, 1);
-        size_t num_entries =
-            curve.num_control_points * ((curve.with_weights > 0) ? 4 : 3) + curve.num_knots;
+        size_t num_entries = num_entries_checked(
+            curve.num_control_points, (curve.with_weights > 0) ? 4 : 3, curve.num_knots);
         curve.data.resize(num_entries);
         in.read(reinterpret_cast<char*>(curve.data.data()), sizeof(double) * num_entries);
     }
diff --git a/src/load_msh_data.cpp b/src/load_msh_data.cpp
index 6fcbac9..3e978f3 100644
--- a/src/load_msh_data.cpp
+++ b/src/load_msh_data.cpp
@@ -51,7 +51,8 @@ void load_data_entry(
     // in.read(reinterpret_cast<char*>(&entry.tag), sizeof(size_t));
     if (is_element_node_data) {
         in.read(reinterpret_cast<char*>(&entry.num_nodes_per_element), sizeof(int));
-        entry.data.resize(fields_per_entry * static_cast<size_t>(entry.num_nodes_per_element));
+        entry.data.resize(num_entries_checked(
+            count_checked(entry.num_nodes_per_element), fields_per_entry));
     } else {
         entry.data.resize(fields_per_entry);
     }
@@ -71,7 +72,8 @@ void load_data_entry(
         int32_t num_nodes_per_element;
         in.read(reinterpret_cast<char*>(&num_nodes_per_element), 4);
         entry.num_nodes_per_element = static_cast<int>(num_nodes_per_element);
-        entry.data.resize(fields_per_entry * static_cast<size_t>(entry.num_nodes_per_element));
+        entry.data.resize(num_entries_checked(
+            count_checked(entry.num_nodes_per_element), fields_per_entry));
     } else {
         entry.data.resize(fields_per_entry);
     }
@@ -92,8 +94,8 @@ void load_data(std::istream& in,
         throw InvalidFormat("Data requires at least 3 int tags.");
     }
 
-    size_t fields_per_entry = static_cast<size_t>(data.header.int_tags[1]);
-    size_t num_entries = static_cast<size_t>(data.header.int_tags[2]);
+    size_t fields_per_entry = count_checked(data.header.int_tags[1]);
+    size_t num_entries = count_checked(data.header.int_tags[2]);
     data.entries.resize(num_entries);
 
     if (is_binary) {
@@ -115,7 +117,8 @@ void load_data(std::istream& in,
             in >> entry.tag;
             if (is_element_node_data) {
                 in >> entry.num_nodes_per_element;
-                entry.data.resize(fields_per_entry * entry.num_nodes_per_element);
+                entry.data.resize(num_entries_checked(
+                    count_checked(entry.num_nodes_per_element), fields_per_entry));
                 for (size_t j = 0; j < entry.num_nodes_per_element; j++) {
                     for (size_t k = 0; k < fields_per_entry; k++) {
                         in >> entry.data[j * fields_per_entry + k];
diff --git a/src/load_msh_elements.cpp b/src/load_msh_elements.cpp
index 49df5d6..375fdda 100644
--- a/src/load_msh_elements.cpp
+++ b/src/load_msh_elements.cpp
@@ -39,7 +39,7 @@ void load_elements_ascii(std::istream& in, MshSpec& spec)
         in >> block.num_elements_in_block;
 
         const size_t n = nodes_per_element(block.element_type);
-        block.data.resize(block.num_elements_in_block * (n + 1));
+        block.data.resize(num_entries_checked(block.num_elements_in_block, n + 1));
         for (size_t j = 0; j < block.num_elements_in_block; j++) {
             for (size_t k = 0; k <= n; k++) {
                 in >> block.data[j * (n + 1) + k];
@@ -69,7 +69,7 @@ void load_elements_binary(std::istream& in, MshSpec& spec)
         in.read(reinterpret_cast<char*>(&block.num_elements_in_block), sizeof(size_t));
 
         const size_t n = nodes_per_element(block.element_type);
-        block.data.resize(block.num_elements_in_block * (n + 1));
+        block.data.resize(num_entries_checked(block.num_elements_in_block, n + 1));
         in.read(reinterpret_cast<char*>(block.data.data()),
             static_cast<std::streamsize>(sizeof(size_t) * block.data.size()));
         assert(!in.fail());
@@ -116,7 +116,7 @@ void load_elements_ascii(std::istream& in, MshSpec& spec)
         in >> element_num;
         in >> element_type;
         in >> num_tags;
-        tags.resize(static_cast<size_t>(num_tags));
+        tags.resize(count_checked(num_tags));
         for (int j = 0; j < num_tags; j++) {
             in >> tags[static_cast<size_t>(j)];
         }
@@ -188,16 +188,17 @@ void load_elements_binary(std::istream& in, MshSpec& spec)
         in.read(reinterpret_cast<char*>(&num_elements_in_block), 4);
         in.read(reinterpret_cast<char*>(&num_tags), 4);
 
-        tags.resize(static_cast<size_t>(num_tags));
+        tags.resize(count_checked(num_tags));
 
         const size_t n = nodes_per_element(element_type);
         node_ids.resize(n);
 
         // Due to v2.2 constraints, each element is parsed as a separate block, and
         // a regrouping will happen at post-processing time.
-        for (size_t i = 0; i < num_elements_in_block; i++) {
+        for (size_t i = 0; i < count_checked(num_elements_in_block); i++) {
             in.read(reinterpret_cast<char*>(&element_id), 4);
-            in.read(reinterpret_cast<char*>(tags.data()), 4 * num_tags);
+            in.read(reinterpret_cast<char*>(tags.data()),
+                static_cast<std::streamsize>(4 * tags.size()));
             in.read(reinterpret_cast<char*>(node_ids.data()), static_cast<int>(4 * n));
 
             min_tag = std::min(min_tag, element_id);
diff --git a/src/load_msh_nodes.cpp b/src/load_msh_nodes.cpp
index 390c8a6..74dd6c7 100644
--- a/src/load_msh_nodes.cpp
+++ b/src/load_msh_nodes.cpp
@@ -14,6 +14,14 @@
 namespace mshio {
 namespace v41 {
 
+void check_parametric(const NodeBlock& block)
+{
+    if (block.parametric < 0 || block.parametric > 3 ||
+        (block.parametric == 1 && (block.entity_dim < 0 || block.entity_dim > 3))) {
+        throw InvalidFormat("Invalid parametric node block detected!");
+    }
+}
+
 void load_nodes_ascii(std::istream& in, MshSpec& spec)
 {
     Nodes& nodes = spec.nodes;
@@ -37,10 +45,10 @@ void load_nodes_ascii(std::istream& in, MshSpec& spec)
         }
         assert(!in.fail());
 
-        assert(block.parametric >= 0 && block.parametric <= 3);
+        check_parametric(block);
         const size_t entries_per_node =
             static_cast<size_t>(3 + ((block.parametric == 1) ? block.entity_dim : 0));
-        block.data.resize(block.num_nodes_in_block * entries_per_node);
+        block.data.resize(num_entries_checked(block.num_nodes_in_block, entries_per_node));
         for (size_t j = 0; j < block.num_nodes_in_block; j++) {
             for (size_t k = 0; k < entries_per_node; k++) {
                 in >> block.data[j * entries_per_node + k];
@@ -73,9 +81,10 @@ void load_nodes_binary(std::istream& in, MshSpec& spec)
             static_cast<std::streamsize>(sizeof(size_t) * block.num_nodes_in_block));
         assert(!in.fail());
 
+        check_parametric(block);
         const size_t entries_per_node =
             static_cast<size_t>(3 + ((block.parametric == 1) ? block.entity_dim : 0));
-        block.data.resize(block.num_nodes_in_block * entries_per_node);
+        block.data.resize(num_entries_checked(block.num_nodes_in_block, entries_per_node));
         in.read(reinterpret_cast<char*>(block.data.data()),
             static_cast<std::streamsize>(
                 sizeof(double) * block.num_nodes_in_block * entries_per_node));
@@ -102,7 +111,7 @@ void load_nodes_ascii(std::istream& in, MshSpec& spec)
     nodes.num_nodes += block.num_nodes_in_block;
 
     block.tags.resize(block.num_nodes_in_block);
-    block.data.resize(block.num_nodes_in_block * 3);
+    block.data.resize(num_entries_checked(block.num_nodes_in_block, 3));
     for (size_t i = 0; i < block.num_nodes_in_block; i++) {
         in >> block.tags[i];
         in >> block.data[i * 3];
@@ -134,7 +143,7 @@ void load_nodes_binary(std::istream& in, MshSpec& spec)
     nodes.num_nodes += block.num_nodes_in_block;
 
     block.tags.resize(block.num_nodes_in_block);
-    block.data.resize(block.num_nodes_in_block * 3);
+    block.data.resize(num_entries_checked(block.num_nodes_in_block, 3));
     eat_white_space(in, 1);
     for (size_t i = 0; i < block.num_nodes_in_block; i++) {
         assert(!in.fail());
diff --git a/src/load_msh_patches.cpp b/src/load_msh_patches.cpp
index 161c679..8863b59 100644
--- a/src/load_msh_patches.cpp
+++ b/src/load_msh_patches.cpp
@@ -25,8 +25,9 @@ void load_patches_ascii(std::istream& in, MshSpec& spec)
         in >> patch.with_weights;
 
         const size_t dim = (patch.with_weights > 0) ? 4 : 3;
-        const size_t num_entries =
-            patch.num_control_points * dim + patch.num_u_knots + patch.num_v_knots;
+        const size_t num_entries = num_entries_checked(patch.num_control_points,
+            dim,
+            num_entries_checked(patch.num_u_knots, 1, patch.num_v_knots));
 
         patch.data.resize(num_entries);
         for (size_t j = 0; j < num_entries; j++) {
@@ -56,8 +57,9 @@ void load_patches_binary(std::istream& in, MshSpec& spec)
         in >> patch.with_weights;
 
         const size_t dim = (patch.with_weights > 0) ? 4 : 3;
-        const size_t num_entries =
-            patch.num_control_points * dim + patch.num_u_knots + patch.num_v_knots;
+        const size_t num_entries = num_entries_checked(patch.num_control_points,
+            dim,
+            num_entries_checked(patch.num_u_knots, 1, patch.num_v_knots));
 
         patch.data.resize(num_entries);
         eat_white_space(in, 1);
diff --git a/src/load_msh_physical_groups.cpp b/src/load_msh_physical_groups.cpp
index 5c539b0..04c1a86 100644
--- a/src/load_msh_physical_groups.cpp
+++ b/src/load_msh_physical_groups.cpp
@@ -1,4 +1,5 @@
 #include "load_msh_physical_groups.h"
+#include "io_utils.h"
 
 #include <mshio/MshSpec.h>
 
@@ -14,7 +15,7 @@ void load_physical_groups(std::istream& in, MshSpec& spec)
     auto& groups = spec.physical_groups;
     int num_groups;
     in >> num_groups;
-    spec.physical_groups.resize(num_groups);
+    spec.physical_groups.resize(count_checked(num_groups));
     for (int i = 0; i < num_groups; i++) {
         auto& group = groups[i];
         in >> group.dim;
-- 
2.43.0


From 14fae32e8755aa1329433ebcd23c40b735b34d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:06 +0000
Subject: [PATCH 03/17] fix: regroup v2.2 nodes by tag without an array over
 the whole tag range

The arrays were indexed with node tags taken from elements, which need not lie within the range of the node tags (out of
bounds write), and their size was the tag range, which has no relation to the number of nodes.
---
 src/load_msh_post_process.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/load_msh_post_process.cpp b/src/load_msh_post_process.cpp
index 77d9dc3..250edb6 100644
--- a/src/load_msh_post_process.cpp
+++ b/src/load_msh_post_process.cpp
@@ -5,6 +5,7 @@
 
 #include <cassert>
 #include <limits>
+#include <unordered_map>
 
 namespace mshio {
 namespace v22 {
@@ -14,8 +15,9 @@ void regroup_nodes_into_blocks(MshSpec& spec)
     auto& nodes = spec.nodes;
     auto& elements = spec.elements;
 
-    std::vector<size_t> entity_dims(nodes.max_node_tag - nodes.min_node_tag + 1, 0);
-    std::vector<size_t> entity_tags(nodes.max_node_tag - nodes.min_node_tag + 1, 0);
+    // Node tags may be sparse, and elements may refer to nodes that are not in the file.
+    std::unordered_map<size_t, size_t> entity_dims;
+    std::unordered_map<size_t, size_t> entity_tags;
     auto node_index = [&](size_t node_tag) {
         return static_cast<size_t>(node_tag - nodes.min_node_tag);
     };
-- 
2.43.0


From a4432128d36f87c7f3944b80fa4b71abb14b7c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:09 +0000
Subject: [PATCH 04/17] fix: v2.2 files with empty or repeated sections leave
 consistent counts and tag ranges

---
 src/load_msh_elements.cpp     | 15 +++++++++------
 src/load_msh_post_process.cpp | 14 ++++++++++++++
 2 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/load_msh_elements.cpp b/src/load_msh_elements.cpp
index 375fdda..322a2d6 100644
--- a/src/load_msh_elements.cpp
+++ b/src/load_msh_elements.cpp
@@ -172,8 +172,9 @@ void load_elements_ascii(std::istream& in, MshSpec& spec)
 void load_elements_binary(std::istream& in, MshSpec& spec)
 {
     Elements& elements = spec.elements;
-    in >> elements.num_elements;
-    elements.entity_blocks.reserve(elements.num_elements);
+    size_t num_elements;
+    in >> num_elements;
+    elements.num_elements += num_elements;
     eat_white_space(in, 1);
 
     std::array<std::map<int, std::set<int>>, 4> entity_tag_to_physical_tags;
@@ -182,7 +183,7 @@ void load_elements_binary(std::istream& in, MshSpec& spec)
     int32_t min_tag = std::numeric_limits<int32_t>::max();
     int32_t max_tag = 0;
     size_t num_processed_elements = 0;
-    while (num_processed_elements != elements.num_elements) {
+    while (num_processed_elements != num_elements) {
         int32_t element_type, num_elements_in_block, num_tags, element_id;
         in.read(reinterpret_cast<char*>(&element_type), 4);
         in.read(reinterpret_cast<char*>(&num_elements_in_block), 4);
@@ -235,15 +236,17 @@ void load_elements_binary(std::istream& in, MshSpec& spec)
             }
 
             num_processed_elements++;
-            if (num_processed_elements > elements.num_elements) {
+            if (num_processed_elements > num_elements) {
                 throw InvalidFormat("Inconsistent element count detected!");
             }
         }
     }
 
     elements.num_entity_blocks = elements.entity_blocks.size();
-    elements.min_element_tag = std::min(elements.min_element_tag, static_cast<size_t>(min_tag));
-    elements.max_element_tag = std::max(elements.max_element_tag, static_cast<size_t>(max_tag));
+    if (num_elements > 0) {
+        elements.min_element_tag = std::min(elements.min_element_tag, static_cast<size_t>(min_tag));
+        elements.max_element_tag = std::max(elements.max_element_tag, static_cast<size_t>(max_tag));
+    }
 
     create_entities(entity_tag_to_physical_tags[0], spec.entities.points);
     create_entities(entity_tag_to_physical_tags[1], spec.entities.curves);
diff --git a/src/load_msh_post_process.cpp b/src/load_msh_post_process.cpp
index 250edb6..dc5eec8 100644
--- a/src/load_msh_post_process.cpp
+++ b/src/load_msh_post_process.cpp
@@ -102,6 +102,19 @@ void regroup_elements_into_blocks(MshSpec& spec)
     spec.elements.num_entity_blocks = spec.elements.entity_blocks.size();
 }
 
+// Without any node or element, the search for the smallest tag leaves its initial value behind.
+void reset_empty_tag_ranges(MshSpec& spec)
+{
+    if (spec.nodes.num_nodes == 0) {
+        spec.nodes.min_node_tag = 0;
+        spec.nodes.max_node_tag = 0;
+    }
+    if (spec.elements.num_elements == 0) {
+        spec.elements.min_element_tag = 0;
+        spec.elements.max_element_tag = 0;
+    }
+}
+
 } // namespace v22
 
 void load_msh_post_process(MshSpec& spec)
@@ -109,6 +122,7 @@ void load_msh_post_process(MshSpec& spec)
     if (spec.mesh_format.version == "2.2") {
         v22::regroup_nodes_into_blocks(spec);
         v22::regroup_elements_into_blocks(spec);
+        v22::reset_empty_tag_ranges(spec);
     }
 }
 
-- 
2.43.0


From fc74868fb29d2987792c1c036fd3a721d9853a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:56 +0000
Subject: [PATCH 05/17] fix: loading and saving do not depend on the caller's
 locale, formatting flags or exception mask

---
 src/load_msh.cpp |  9 +++++++--
 src/save_msh.cpp | 21 ++++++++++++++++++++-
 2 files changed, 27 insertions(+), 3 deletions(-)

diff --git a/src/load_msh.cpp b/src/load_msh.cpp
index 7859f0b..90adea2 100644
--- a/src/load_msh.cpp
+++ b/src/load_msh.cpp
@@ -17,6 +17,7 @@
 #include <cctype>
 #include <fstream>
 #include <iostream>
+#include <locale>
 #include <string>
 
 namespace mshio {
@@ -85,8 +86,12 @@ MshSpec load_msh(std::istream& in)
         throw InvalidFormat("Input stream is not readable!");
     }
 
-    // Anything that cannot be read or parsed ends the load with an exception.
-    std::istream checked(in.rdbuf());
+    // Anything that cannot be read or parsed ends the load with an exception.  The format is
+    // independent of the locale and the formatting flags of the caller's stream, and these are left
+    // alone.
+    std::istream checked(nullptr);
+    checked.imbue(std::locale::classic());
+    checked.rdbuf(in.rdbuf());
     checked.exceptions(std::ios_base::failbit | std::ios_base::badbit);
 
     MshSpec spec;
diff --git a/src/save_msh.cpp b/src/save_msh.cpp
index 8f90b88..bb3a055 100644
--- a/src/save_msh.cpp
+++ b/src/save_msh.cpp
@@ -12,10 +12,11 @@
 
 #include <cassert>
 #include <fstream>
+#include <locale>
 
 namespace mshio {
 
-void save_msh(std::ostream& out, const MshSpec& spec)
+void save_msh_sections(std::ostream& out, const MshSpec& spec)
 {
     save_mesh_format(out, spec);
     if (spec.physical_groups.size() > 0) {
@@ -50,6 +51,24 @@ void save_msh(std::ostream& out, const MshSpec& spec)
 #endif
 }
 
+void save_msh(std::ostream& out, const MshSpec& spec)
+{
+    if (!out.good()) {
+        out.setstate(std::ios_base::failbit);
+        return;
+    }
+
+    // The format is independent of the locale, the formatting flags and the exception mask of the
+    // caller's stream, and these are left alone.
+    std::ostream formatted(nullptr);
+    formatted.imbue(std::locale::classic());
+    formatted.rdbuf(out.rdbuf());
+    save_msh_sections(formatted, spec);
+    if (!formatted) {
+        out.setstate(formatted.rdstate());
+    }
+}
+
 void save_msh(const std::string& filename, const MshSpec& spec)
 {
     std::ofstream fout(filename.c_str(), std::ios::binary);
-- 
2.43.0


From 222e96db716efbc19a6f1e0f4ebf809954737e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:56 +0000
Subject: [PATCH 06/17] fix: ASCII saves keep the full precision of
 floating-point values

---
 src/save_msh.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/save_msh.cpp b/src/save_msh.cpp
index bb3a055..36ee0bf 100644
--- a/src/save_msh.cpp
+++ b/src/save_msh.cpp
@@ -12,6 +12,7 @@
 
 #include <cassert>
 #include <fstream>
+#include <limits>
 #include <locale>
 
 namespace mshio {
@@ -63,6 +64,7 @@ void save_msh(std::ostream& out, const MshSpec& spec)
     std::ostream formatted(nullptr);
     formatted.imbue(std::locale::classic());
     formatted.rdbuf(out.rdbuf());
+    formatted.precision(std::numeric_limits<double>::max_digits10);
     save_msh_sections(formatted, spec);
     if (!formatted) {
         out.setstate(formatted.rdstate());
-- 
2.43.0


From f61dd956a67db6bd5d3feaf3cde548337e1cc2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:56 +0000
Subject: [PATCH 07/17] fix: saving to a file reports write errors

---
 src/save_msh.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/save_msh.cpp b/src/save_msh.cpp
index 36ee0bf..8608ba9 100644
--- a/src/save_msh.cpp
+++ b/src/save_msh.cpp
@@ -14,6 +14,7 @@
 #include <fstream>
 #include <limits>
 #include <locale>
+#include <stdexcept>
 
 namespace mshio {
 
@@ -78,6 +79,10 @@ void save_msh(const std::string& filename, const MshSpec& spec)
         throw std::runtime_error("Unable to open output file to write!");
     }
     save_msh(fout, spec);
+    fout.close();
+    if (!fout) {
+        throw std::runtime_error("Unable to write output file!");
+    }
 }
 
 } // namespace mshio
-- 
2.43.0


From 33418ddfd36a0f07c1d8ae43cdc6fc0aee14323a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:34 +0000
Subject: [PATCH 08/17] fix: tags wider than 32 bits are kept in v2.2 ASCII
 files and refused where they do not fit

---
 src/io_utils.cpp          | 10 ++++++++++
 src/io_utils.h            |  4 ++++
 src/load_msh_elements.cpp |  5 +++--
 src/save_msh_data.cpp     |  5 +++--
 src/save_msh_elements.cpp |  6 +++---
 src/save_msh_nodes.cpp    |  3 ++-
 6 files changed, 25 insertions(+), 8 deletions(-)

diff --git a/src/io_utils.cpp b/src/io_utils.cpp
index 6ebe825..92e3052 100644
--- a/src/io_utils.cpp
+++ b/src/io_utils.cpp
@@ -3,6 +3,7 @@
 #include <mshio/exception.h>
 
 #include <istream>
+#include <string>
 
 namespace mshio {
 
@@ -38,5 +39,14 @@ size_t count_checked(int count)
     return static_cast<size_t>(count);
 }
 
+int32_t int32_checked(size_t value)
+{
+    if (value > static_cast<size_t>(std::numeric_limits<int32_t>::max())) {
+        throw UnsupportedFeature(
+            "Cannot store " + std::to_string(value) + " in a 32-bit field of an MSH file!");
+    }
+    return static_cast<int32_t>(value);
+}
+
 } // namespace mshio
 
diff --git a/src/io_utils.h b/src/io_utils.h
index 343a7e2..d6d9431 100644
--- a/src/io_utils.h
+++ b/src/io_utils.h
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <cstdint>
 #include <istream>
 #include <limits>
 
@@ -14,5 +15,8 @@ size_t num_entries_checked(size_t count, size_t entries_per_item, size_t extra =
 // A count that is stored as a signed integer.  Throws InvalidFormat if it is negative.
 size_t count_checked(int count);
 
+// A tag or a count stored as a 32-bit integer.  Throws UnsupportedFeature if it does not fit.
+int32_t int32_checked(size_t value);
+
 } // namespace mshio
 
diff --git a/src/load_msh_elements.cpp b/src/load_msh_elements.cpp
index 322a2d6..0cd1d8e 100644
--- a/src/load_msh_elements.cpp
+++ b/src/load_msh_elements.cpp
@@ -105,10 +105,11 @@ void load_elements_ascii(std::istream& in, MshSpec& spec)
     elements.num_entity_blocks += num_elements;
     elements.num_elements += num_elements;
 
-    int element_num, element_type;
+    size_t element_num;
+    int element_type;
     int num_tags;
     std::vector<int> tags;
-    std::vector<int> node_ids;
+    std::vector<size_t> node_ids;
 
     std::array<std::map<int, std::set<int>>, 4> entity_tag_to_physical_tags;
 
diff --git a/src/save_msh_data.cpp b/src/save_msh_data.cpp
index eb35260..a85b562 100644
--- a/src/save_msh_data.cpp
+++ b/src/save_msh_data.cpp
@@ -1,4 +1,5 @@
 #include "save_msh_data.h"
+#include "io_utils.h"
 
 #include <mshio/MshSpec.h>
 #include <mshio/exception.h>
@@ -41,7 +42,7 @@ void save_data(std::ostream& out,
                 // Based on trial and error, it seems Gmsh 4.7.1 still expect 32
                 // bits tag, which is inconsistent with their spec.  Maybe
                 // report a bug?
-                tag = static_cast<int32_t>(entry.tag);
+                tag = int32_checked(entry.tag);
                 out.write(reinterpret_cast<const char*>(&tag), 4);
                 // out.write(reinterpret_cast<const char*>(&entry.tag), sizeof(size_t));
                 if (is_element_node_data) {
@@ -54,7 +55,7 @@ void save_data(std::ostream& out,
         } else if (version == "2.2") {
             int32_t tag, num_nodes_per_element;
             for (const DataEntry& entry : data.entries) {
-                tag = static_cast<int32_t>(entry.tag);
+                tag = int32_checked(entry.tag);
                 out.write(reinterpret_cast<const char*>(&tag), 4);
                 if (is_element_node_data) {
                     num_nodes_per_element = static_cast<int32_t>(entry.num_nodes_per_element);
diff --git a/src/save_msh_elements.cpp b/src/save_msh_elements.cpp
index af91257..01bb7a8 100644
--- a/src/save_msh_elements.cpp
+++ b/src/save_msh_elements.cpp
@@ -101,7 +101,7 @@ void save_elements_binary(std::ostream& out, const MshSpec& spec)
         const ElementBlock& block = elements.entity_blocks[i];
         const int32_t element_type = block.element_type;
         constexpr int32_t num_tags = 1;
-        const int32_t num_element_in_block = static_cast<int32_t>(block.num_elements_in_block);
+        const int32_t num_element_in_block = int32_checked(block.num_elements_in_block);
         out.write(reinterpret_cast<const char*>(&element_type), 4);
         out.write(reinterpret_cast<const char*>(&num_element_in_block), 4);
         out.write(reinterpret_cast<const char*>(&num_tags), 4);
@@ -110,11 +110,11 @@ void save_elements_binary(std::ostream& out, const MshSpec& spec)
         const int32_t tag = static_cast<int32_t>(block.entity_tag);
 
         for (size_t j = 0; j < block.num_elements_in_block; j++) {
-            const int32_t element_number = static_cast<int32_t>(block.data[j * (n + 1)]);
+            const int32_t element_number = int32_checked(block.data[j * (n + 1)]);
             out.write(reinterpret_cast<const char*>(&element_number), 4);
             out.write(reinterpret_cast<const char*>(&tag), 4);
             for (size_t k = 0; k < n; k++) {
-                const int32_t node_id = static_cast<int32_t>(block.data[j * (n + 1) + k + 1]);
+                const int32_t node_id = int32_checked(block.data[j * (n + 1) + k + 1]);
                 out.write(reinterpret_cast<const char*>(&node_id), 4);
             }
         }
diff --git a/src/save_msh_nodes.cpp b/src/save_msh_nodes.cpp
index f08fbca..8e9a7e1 100644
--- a/src/save_msh_nodes.cpp
+++ b/src/save_msh_nodes.cpp
@@ -1,4 +1,5 @@
 #include "save_msh_nodes.h"
+#include "io_utils.h"
 
 #include <mshio/MshSpec.h>
 #include <mshio/exception.h>
@@ -95,7 +96,7 @@ void save_nodes_binary(std::ostream& out, const MshSpec& spec)
         const size_t entries_per_node =
             static_cast<size_t>(3 + ((block.parametric == 1) ? block.entity_dim : 0));
         for (size_t j = 0; j < block.num_nodes_in_block; j++) {
-            const int32_t node_id = static_cast<int32_t>(block.tags[j]);
+            const int32_t node_id = int32_checked(block.tags[j]);
             out.write(reinterpret_cast<const char*>(&node_id), 4);
             out.write(reinterpret_cast<const char*>(block.data.data() + j * entries_per_node),
                 static_cast<std::streamsize>(sizeof(double) * 3));
-- 
2.43.0


From 098eca4521e982b1ca9654820e50dbd24a60415c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:52 +0000
Subject: [PATCH 09/17] fix: not-a-number and infinity in ASCII files can be
 read back

---
 src/io_utils.cpp | 66 ++++++++++++++++++++++++++++++++++++++++++++++++
 src/io_utils.h   |  5 ++++
 src/load_msh.cpp |  4 +--
 3 files changed, 73 insertions(+), 2 deletions(-)

diff --git a/src/io_utils.cpp b/src/io_utils.cpp
index 92e3052..9d8f0b4 100644
--- a/src/io_utils.cpp
+++ b/src/io_utils.cpp
@@ -3,10 +3,68 @@
 #include <mshio/exception.h>
 
 #include <istream>
+#include <memory>
 #include <string>
 
 namespace mshio {
 
+namespace {
+
+class FloatingPointReader : public std::num_get<char>
+{
+protected:
+    using std::num_get<char>::do_get;
+
+    iter_type do_get(iter_type it,
+        iter_type end,
+        std::ios_base& io,
+        std::ios_base::iostate& err,
+        double& value) const override
+    {
+        const bool has_sign = it != end && (*it == '-' || *it == '+');
+        const bool is_negative = has_sign && *it == '-';
+        if (has_sign) ++it;
+
+        const char first = it != end ? to_lower(*it) : '\0';
+        if (first == 'n') {
+            value = std::numeric_limits<double>::quiet_NaN();
+            it = match(it, end, "nan", err);
+        } else if (first == 'i') {
+            value = std::numeric_limits<double>::infinity();
+            it = match(it, end, "inf", err);
+        } else if (has_sign && (first == '-' || first == '+')) {
+            value = 0;
+            err = std::ios_base::failbit;
+        } else {
+            it = std::num_get<char>::do_get(it, end, io, err, value);
+        }
+        if (is_negative) value = -value;
+        return it;
+    }
+
+private:
+    static char to_lower(char ch)
+    {
+        return (ch >= 'A' && ch <= 'Z') ? static_cast<char>(ch - 'A' + 'a') : ch;
+    }
+
+    static iter_type match(
+        iter_type it, iter_type end, const char* word, std::ios_base::iostate& err)
+    {
+        err = std::ios_base::goodbit;
+        for (; *word != '\0'; ++word, ++it) {
+            if (it == end || to_lower(*it) != *word) {
+                err |= std::ios_base::failbit;
+                break;
+            }
+        }
+        if (it == end) err |= std::ios_base::eofbit;
+        return it;
+    }
+};
+
+} // namespace
+
 void eat_white_space(std::istream& in, size_t count)
 {
     char ch = static_cast<char>(in.peek());
@@ -39,6 +97,14 @@ size_t count_checked(int count)
     return static_cast<size_t>(count);
 }
 
+std::locale input_locale()
+{
+    auto reader = std::make_unique<FloatingPointReader>();
+    std::locale result(std::locale::classic(), reader.get());
+    reader.release(); // now owned by the locale
+    return result;
+}
+
 int32_t int32_checked(size_t value)
 {
     if (value > static_cast<size_t>(std::numeric_limits<int32_t>::max())) {
diff --git a/src/io_utils.h b/src/io_utils.h
index d6d9431..07d3369 100644
--- a/src/io_utils.h
+++ b/src/io_utils.h
@@ -3,6 +3,7 @@
 #include <cstdint>
 #include <istream>
 #include <limits>
+#include <locale>
 
 namespace mshio {
 
@@ -18,5 +19,9 @@ size_t count_checked(int count);
 // A tag or a count stored as a 32-bit integer.  Throws UnsupportedFeature if it does not fit.
 int32_t int32_checked(size_t value);
 
+// The locale MSH files are read in: the classic one, except that the spellings of not-a-number and
+// infinity that saving produces are also understood as floating-point values.
+std::locale input_locale();
+
 } // namespace mshio
 
diff --git a/src/load_msh.cpp b/src/load_msh.cpp
index 90adea2..7a97f38 100644
--- a/src/load_msh.cpp
+++ b/src/load_msh.cpp
@@ -1,5 +1,6 @@
 #include <mshio/MshSpec.h>
 
+#include "io_utils.h"
 #include "load_msh_curves.h"
 #include "load_msh_data.h"
 #include "load_msh_elements.h"
@@ -17,7 +18,6 @@
 #include <cctype>
 #include <fstream>
 #include <iostream>
-#include <locale>
 #include <string>
 
 namespace mshio {
@@ -90,7 +90,7 @@ MshSpec load_msh(std::istream& in)
     // independent of the locale and the formatting flags of the caller's stream, and these are left
     // alone.
     std::istream checked(nullptr);
-    checked.imbue(std::locale::classic());
+    checked.imbue(input_locale());
     checked.rdbuf(in.rdbuf());
     checked.exceptions(std::ios_base::failbit | std::ios_base::badbit);
 
-- 
2.43.0


From cab01d0bb7dbe3aa0ec0fb33654eae35abc4cdf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:09 +0000
Subject: [PATCH 10/17] fix: saving refuses versions and element types that no
 section could hold

---
 src/save_msh_elements.cpp | 1 +
 src/save_msh_format.cpp   | 6 ++++++
 2 files changed, 7 insertions(+)

diff --git a/src/save_msh_elements.cpp b/src/save_msh_elements.cpp
index 01bb7a8..214e83b 100644
--- a/src/save_msh_elements.cpp
+++ b/src/save_msh_elements.cpp
@@ -52,6 +52,7 @@ void save_elements_binary(std::ostream& out, const MshSpec& spec)
 
     for (size_t i = 0; i < elements.num_entity_blocks; i++) {
         const ElementBlock& block = elements.entity_blocks[i];
+        assert_element_is_supported(block.element_type);
 
         out.write(reinterpret_cast<const char*>(&block.entity_dim), sizeof(int));
         out.write(reinterpret_cast<const char*>(&block.entity_tag), sizeof(int));
diff --git a/src/save_msh_format.cpp b/src/save_msh_format.cpp
index e4785c3..9acf1cc 100644
--- a/src/save_msh_format.cpp
+++ b/src/save_msh_format.cpp
@@ -1,14 +1,20 @@
 #include "save_msh_format.h"
 
 #include <mshio/MshSpec.h>
+#include <mshio/exception.h>
 
 #include <ostream>
+#include <string>
 
 namespace mshio {
 
 void save_mesh_format(std::ostream& out, const MshSpec& spec)
 {
     const MeshFormat& format = spec.mesh_format;
+    if (format.version != "2.2" && format.version != "4.1") {
+        throw UnsupportedFeature("Unsupported MSH version: " + format.version);
+    }
+
     out << "$MeshFormat" << std::endl;
     out << format.version << " " << format.file_type << " " << format.data_size << std::endl;
     if (format.file_type == 1) {
-- 
2.43.0


From 1adcae5418ad0df33821aebdf4258522a52a9b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:12 +0000
Subject: [PATCH 11/17] fix: ASCII data entries without values end their line

---
 src/save_msh_data.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/save_msh_data.cpp b/src/save_msh_data.cpp
index a85b562..012ef72 100644
--- a/src/save_msh_data.cpp
+++ b/src/save_msh_data.cpp
@@ -73,6 +73,9 @@ void save_data(std::ostream& out,
             if (is_element_node_data) {
                 out << entry.num_nodes_per_element << " ";
             }
+            if (entry.data.empty()) {
+                out << std::endl;
+            }
             for (size_t i = 0; i < entry.data.size(); i++) {
                 out << entry.data[i];
                 if (i == entry.data.size() - 1) {
-- 
2.43.0


From e20f8cf29fff2c8c784aa5b836062bdd67648775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:30 +0000
Subject: [PATCH 12/17] fix: running out of memory while saving a string does
 not cut the string short

---
 src/io_utils.cpp                 | 10 ++++++++++
 src/io_utils.h                   |  6 ++++++
 src/save_msh_data.cpp            |  4 ++--
 src/save_msh_physical_groups.cpp |  5 +++--
 4 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/io_utils.cpp b/src/io_utils.cpp
index 9d8f0b4..6b45e65 100644
--- a/src/io_utils.cpp
+++ b/src/io_utils.cpp
@@ -97,6 +97,16 @@ size_t count_checked(int count)
     return static_cast<size_t>(count);
 }
 
+void write_quoted(std::ostream& out, const std::string& text)
+{
+    out.put('"');
+    for (const char ch : text) {
+        if (ch == '"' || ch == '\\') out.put('\\');
+        out.put(ch);
+    }
+    out.put('"');
+}
+
 std::locale input_locale()
 {
     auto reader = std::make_unique<FloatingPointReader>();
diff --git a/src/io_utils.h b/src/io_utils.h
index 07d3369..a97b4e0 100644
--- a/src/io_utils.h
+++ b/src/io_utils.h
@@ -4,6 +4,8 @@
 #include <istream>
 #include <limits>
 #include <locale>
+#include <ostream>
+#include <string>
 
 namespace mshio {
 
@@ -19,6 +21,10 @@ size_t count_checked(int count);
 // A tag or a count stored as a 32-bit integer.  Throws UnsupportedFeature if it does not fit.
 int32_t int32_checked(size_t value);
 
+// Write `text` in double quotes, escaped the way std::quoted reads it.  Other than std::quoted, this
+// does not need memory, the lack of which streams do not report.
+void write_quoted(std::ostream& out, const std::string& text);
+
 // The locale MSH files are read in: the classic one, except that the spellings of not-a-number and
 // infinity that saving produces are also understood as floating-point values.
 std::locale input_locale();
diff --git a/src/save_msh_data.cpp b/src/save_msh_data.cpp
index 012ef72..1bcb4ab 100644
--- a/src/save_msh_data.cpp
+++ b/src/save_msh_data.cpp
@@ -5,7 +5,6 @@
 #include <mshio/exception.h>
 
 #include <cassert>
-#include <iomanip>
 #include <ostream>
 #include <string>
 
@@ -21,7 +20,8 @@ void save_data(std::ostream& out,
 {
     out << data.header.string_tags.size() << std::endl;
     for (const std::string& tag : data.header.string_tags) {
-        out << std::quoted(tag) << std::endl;
+        write_quoted(out, tag);
+        out << std::endl;
     }
 
     out << data.header.real_tags.size() << std::endl;
diff --git a/src/save_msh_physical_groups.cpp b/src/save_msh_physical_groups.cpp
index 40bbff7..a3dcef5 100644
--- a/src/save_msh_physical_groups.cpp
+++ b/src/save_msh_physical_groups.cpp
@@ -1,10 +1,10 @@
 #include "save_msh_physical_groups.h"
+#include "io_utils.h"
 
 #include <mshio/MshSpec.h>
 #include <mshio/exception.h>
 
 #include <cassert>
-#include <iomanip>
 
 namespace mshio {
 
@@ -17,7 +17,8 @@ void save_physical_groups(std::ostream& out, const MshSpec& spec)
     for (const auto& group: groups) {
         out << group.dim << " ";
         out << group.tag << " ";
-        out << std::quoted(group.name) << std::endl;
+        write_quoted(out, group.name);
+        out << std::endl;
     }
     out << "$EndPhysicalNames" << std::endl;
 }
-- 
2.43.0


From a006966c74d5d145adbfe65de6f1bc4465199029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:36 +0000
Subject: [PATCH 13/17] fix: regrouping v2.2 nodes takes memory in proportion
 to the nodes

---
 src/load_msh_post_process.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/load_msh_post_process.cpp b/src/load_msh_post_process.cpp
index dc5eec8..ca826f4 100644
--- a/src/load_msh_post_process.cpp
+++ b/src/load_msh_post_process.cpp
@@ -47,8 +47,6 @@ void regroup_nodes_into_blocks(MshSpec& spec)
             if (dim != curr_dim || tag != curr_tag) {
                 node_blocks.emplace_back();
                 auto& curr_block = node_blocks.back();
-                curr_block.tags.reserve(block.num_nodes_in_block);
-                curr_block.data.reserve(block.num_nodes_in_block * 3);
                 curr_block.entity_dim = static_cast<int>(dim);
                 curr_block.entity_tag = static_cast<int>(tag);
                 curr_dim = dim;
-- 
2.43.0


From 442adab6db97edd33e2ec851bc9a1935c1e89284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:36 +0000
Subject: [PATCH 14/17] fix: v2.2 binary saves write no header for empty
 element blocks, which would follow the last element

---
 src/save_msh_elements.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/save_msh_elements.cpp b/src/save_msh_elements.cpp
index 214e83b..1d0e187 100644
--- a/src/save_msh_elements.cpp
+++ b/src/save_msh_elements.cpp
@@ -100,6 +100,7 @@ void save_elements_binary(std::ostream& out, const MshSpec& spec)
     out << elements.num_elements << std::endl;
     for (size_t i = 0; i < elements.num_entity_blocks; i++) {
         const ElementBlock& block = elements.entity_blocks[i];
+        if (block.num_elements_in_block == 0) continue;
         const int32_t element_type = block.element_type;
         constexpr int32_t num_tags = 1;
         const int32_t num_element_in_block = int32_checked(block.num_elements_in_block);
-- 
2.43.0


From f2b97cc54cdf0c1ab602565aa9657d499e52c527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:49 +0000
Subject: [PATCH 15/17] fix: data entries without values are loaded in no time,
 however many nodes they claim

---
 src/load_msh_data.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/load_msh_data.cpp b/src/load_msh_data.cpp
index 3e978f3..76708b5 100644
--- a/src/load_msh_data.cpp
+++ b/src/load_msh_data.cpp
@@ -119,10 +119,8 @@ void load_data(std::istream& in,
                 in >> entry.num_nodes_per_element;
                 entry.data.resize(num_entries_checked(
                     count_checked(entry.num_nodes_per_element), fields_per_entry));
-                for (size_t j = 0; j < entry.num_nodes_per_element; j++) {
-                    for (size_t k = 0; k < fields_per_entry; k++) {
-                        in >> entry.data[j * fields_per_entry + k];
-                    }
+                for (size_t j = 0; j < entry.data.size(); j++) {
+                    in >> entry.data[j];
                 }
             } else {
                 entry.data.resize(fields_per_entry);
-- 
2.43.0


From 93746229f164d1b3013a21fe3b6db2e2d8691bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:53 +0000
Subject: [PATCH 16/17] fix: refuse unsupported types of empty blocks in 2.2
 binary saves, too

---
 src/save_msh_elements.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/save_msh_elements.cpp b/src/save_msh_elements.cpp
index 1d0e187..3da1618 100644
--- a/src/save_msh_elements.cpp
+++ b/src/save_msh_elements.cpp
@@ -100,6 +100,7 @@ void save_elements_binary(std::ostream& out, const MshSpec& spec)
     out << elements.num_elements << std::endl;
     for (size_t i = 0; i < elements.num_entity_blocks; i++) {
         const ElementBlock& block = elements.entity_blocks[i];
+        assert_element_is_supported(block.element_type);
         if (block.num_elements_in_block == 0) continue;
         const int32_t element_type = block.element_type;
         constexpr int32_t num_tags = 1;
-- 
2.43.0


From 66a5140d978189d17fdd456ad048c26fda5bc6b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:26 +0000
Subject: [PATCH 17/17] fix: 2.2 loading takes no longer when node tags have a
 common stride

---
 src/load_msh_post_process.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/load_msh_post_process.cpp b/src/load_msh_post_process.cpp
index ca826f4..1d8c84d 100644
--- a/src/load_msh_post_process.cpp
+++ b/src/load_msh_post_process.cpp
@@ -5,7 +5,7 @@
 
 #include <cassert>
 #include <limits>
-#include <unordered_map>
+#include <map>
 
 namespace mshio {
 namespace v22 {
@@ -16,8 +16,8 @@ void regroup_nodes_into_blocks(MshSpec& spec)
     auto& elements = spec.elements;
 
     // Node tags may be sparse, and elements may refer to nodes that are not in the file.
-    std::unordered_map<size_t, size_t> entity_dims;
-    std::unordered_map<size_t, size_t> entity_tags;
+    std::map<size_t, size_t> entity_dims;
+    std::map<size_t, size_t> entity_tags;
     auto node_index = [&](size_t node_tag) {
         return static_cast<size_t>(node_tag - nodes.min_node_tag);
     };
-- 
2.43.0

