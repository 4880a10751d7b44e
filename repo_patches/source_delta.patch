From 5d2a0a5d69c0646bc3c8dc50d11c46c3c1a374c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:30 +0000
Subject: [PATCH 01/31] fix: compute inline capture sizes in size_t

---
 arg-capture-io/src/arg_capture_io.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arg-capture-io/src/arg_capture_io.cpp b/arg-capture-io/src/arg_capture_io.cpp
index cb4a9ca..afa9295 100644
--- a/arg-capture-io/src/arg_capture_io.cpp
+++ b/arg-capture-io/src/arg_capture_io.cpp
@@ -129,7 +129,7 @@ bool ArgCaptureIO::create_and_capture_to_file(
 }
 
 bool ArgCaptureIO::capture_inline(ArgCapture& capture, const void* data, std::string element_id) {
-    auto size = std::accumulate(capture.dims.begin(), capture.dims.end(), 1, std::multiplies<size_t>());
+    auto size = std::accumulate(capture.dims.begin(), capture.dims.end(), size_t{1}, std::multiplies<size_t>());
 
     DEBUG_PRINT(
         "Capturing " << (capture.dims.size() - 1) << "D arg" << capture.arg_idx << ": type "
-- 
2.43.0


From c51ce0326d064dcd8672c8cb3e10f9efc2348920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:30 +0000
Subject: [PATCH 02/31] fix: report truncated raw capture files instead of
 returning partial data

---
 arg-capture-io/src/arg_capture_io.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/arg-capture-io/src/arg_capture_io.cpp b/arg-capture-io/src/arg_capture_io.cpp
index afa9295..ad5f2f9 100644
--- a/arg-capture-io/src/arg_capture_io.cpp
+++ b/arg-capture-io/src/arg_capture_io.cpp
@@ -249,6 +249,9 @@ void ArgCaptureIO::read_data_from_raw_file(const std::filesystem::path& file, vo
     }
 
     ifs.read(reinterpret_cast<char*>(write_ptr), size);
+    if (!ifs) {
+        throw std::runtime_error("Failed to read " + std::to_string(size) + " bytes from file: " + file.string());
+    }
     ifs.close();
 }
 
-- 
2.43.0


From 63496dbfac49d6e7d835d18cba891e2812a443c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:30 +0000
Subject: [PATCH 03/31] fix: report index files that could not be written

---
 arg-capture-io/src/arg_capture_io.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/arg-capture-io/src/arg_capture_io.cpp b/arg-capture-io/src/arg_capture_io.cpp
index ad5f2f9..3582037 100644
--- a/arg-capture-io/src/arg_capture_io.cpp
+++ b/arg-capture-io/src/arg_capture_io.cpp
@@ -289,6 +289,10 @@ void ArgCaptureIO::write_index(std::filesystem::path base_path) {
 
         ofs.close();
 
+        if (ofs.fail()) {
+            throw std::runtime_error("Failed to write index file: " + file.string());
+        }
+
         DEBUG_PRINTLN("Wrote capture index to " << file.string());
     }
 }
-- 
2.43.0


From 832394e539243a32f933d023f5ecc4e3a2e7881e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:24 +0000
Subject: [PATCH 04/31] fix: separate trace rows correctly when a region has no
 events

---
 rtl/src/instrumentation.cpp | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/rtl/src/instrumentation.cpp b/rtl/src/instrumentation.cpp
index 8650db4..309c387 100644
--- a/rtl/src/instrumentation.cpp
+++ b/rtl/src/instrumentation.cpp
@@ -541,6 +541,7 @@ public:
         std::fprintf(f, "{\"traceEvents\":[\n");
 
         // Output all events
+        bool first_row = true;
         for (auto iter = regions.begin(); iter != regions.end(); ++iter) {
             auto& region = iter->second;
 
@@ -552,11 +553,11 @@ public:
                 } else if (region.event_set == __DAISY_EVENT_SET_CUDA) {
                     event_names = this->event_names_cuda;
                 }
-                append_event_aggregated(f, region, event_names);
-
-                if (std::next(iter) != regions.end()) {
+                if (!first_row) {
                     std::fprintf(f, ",\n");
                 }
+                first_row = false;
+                append_event_aggregated(f, region, event_names);
                 continue;
             }
 
@@ -568,13 +569,11 @@ public:
                 } else if (region.event_set == __DAISY_EVENT_SET_CUDA) {
                     event_names = this->event_names_cuda;
                 }
-                append_event(f, region, event_index, event_names);
-                if (event_index < region.starts.size() - 1) {
+                if (!first_row) {
                     std::fprintf(f, ",\n");
                 }
-            }
-            if (std::next(iter) != regions.end()) {
-                std::fprintf(f, ",\n");
+                first_row = false;
+                append_event(f, region, event_index, event_names);
             }
         }
 
-- 
2.43.0


From 4280d69511d23aee9c1f55fb3c2fdbde57170214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:24 +0000
Subject: [PATCH 05/31] fix: no trailing comma in trace rows of regions without
 an SDFG

---
 rtl/src/instrumentation.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rtl/src/instrumentation.cpp b/rtl/src/instrumentation.cpp
index 309c387..7152a49 100644
--- a/rtl/src/instrumentation.cpp
+++ b/rtl/src/instrumentation.cpp
@@ -247,12 +247,14 @@ private:
             entry << "\"features_file\":\"\",";
         }
         if (md.opt_report_file) {
-            entry << "\"opt_report_file\":\"" << md.opt_report_file << "\",";
+            entry << "\"opt_report_file\":\"" << md.opt_report_file << "\"";
         } else {
-            entry << "\"opt_report_file\":\"\",";
+            entry << "\"opt_report_file\":\"\"";
         }
 
         if (md.sdfg_name && md.sdfg_file) {
+            entry << ",";
+
             // Element metadata
             entry << "\"element_id\":" << md.element_id << ",";
             entry << "\"element_type\":\"" << md.element_type << "\",";
-- 
2.43.0


From 54b5d033760f6a2143da1e87481a9f79fbda5e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:24 +0000
Subject: [PATCH 06/31] fix: aggregate report of a region that was never
 executed

---
 rtl/src/instrumentation.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/rtl/src/instrumentation.cpp b/rtl/src/instrumentation.cpp
index 7152a49..1366579 100644
--- a/rtl/src/instrumentation.cpp
+++ b/rtl/src/instrumentation.cpp
@@ -102,12 +102,12 @@ struct DaisyRegion {
 
     // Runtime
     long long first_start = 0;
-    long long last_start;
+    long long last_start = 0;
     long long runtime_n = 0;
     double runtime_mean = 0.0;
     double runtime_variance = 0.0;
-    long long runtime_min;
-    long long runtime_max;
+    long long runtime_min = 0;
+    long long runtime_max = 0;
 
     // Counters
     std::vector<long long> n;
@@ -417,7 +417,8 @@ private:
 
         entry << "\"metrics\":{";
         // PAPI counters
-        for (size_t i = 0; i < event_names.size(); ++i) {
+        // (a region that was never exited has no counter statistics)
+        for (size_t i = 0; i < event_names.size() && i < region.mean.size(); ++i) {
             entry << "\"" << event_names[i] << "\":{";
             entry << "\"mean\":" << region.mean[i] << ",";
             entry << "\"variance\":" << region.variance[i] << ",";
-- 
2.43.0


From 6c090faaf955cc1fa50532adf9a3915d7fec2319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:24 +0000
Subject: [PATCH 07/31] fix: report the runtime variance in squared
 microseconds

---
 rtl/src/instrumentation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rtl/src/instrumentation.cpp b/rtl/src/instrumentation.cpp
index 1366579..b9905e5 100644
--- a/rtl/src/instrumentation.cpp
+++ b/rtl/src/instrumentation.cpp
@@ -443,7 +443,7 @@ private:
         // Runtime stats
         entry << "\"runtime\":{";
         entry << "\"mean\":" << ns_to_us(region.runtime_mean) << ",";
-        entry << "\"variance\":" << ns_to_us(region.runtime_variance) << ",";
+        entry << "\"variance\":" << ns_to_us(ns_to_us(region.runtime_variance)) << ",";
         entry << "\"count\":" << region.runtime_n << ",";
         entry << "\"min\":" << ns_to_us(region.runtime_min) << ",";
         entry << "\"max\":" << ns_to_us(region.runtime_max);
-- 
2.43.0


From 9e7c03296c4a7306369c36e3a0ba43fbbda971ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:24 +0000
Subject: [PATCH 08/31] fix: keep the event set of a region that is initialized
 again while active

---
 rtl/src/instrumentation.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rtl/src/instrumentation.cpp b/rtl/src/instrumentation.cpp
index b9905e5..1720440 100644
--- a/rtl/src/instrumentation.cpp
+++ b/rtl/src/instrumentation.cpp
@@ -609,6 +609,11 @@ public:
             size_t region_id = this->region_name_to_id[metadata->region_uuid];
             auto& region = this->regions[region_id];
 
+            // Region is still active, keep its event set
+            if (region.papi_eventset != -1) {
+                return region_id;
+            }
+
             if (_PAPI_create_eventset(&region.papi_eventset) != 0) {
                 std::fprintf(stderr, "[daisy-rtl] Failed to create PAPI eventset.\n");
                 exit(EXIT_FAILURE);
-- 
2.43.0


From 79afc85bb440325944468c8eba152cb1917a549c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:24 +0000
Subject: [PATCH 09/31] fix: escape strings in the instrumentation report

---
 rtl/src/instrumentation.cpp | 69 +++++++++++++++++++++++--------------
 1 file changed, 44 insertions(+), 25 deletions(-)

diff --git a/rtl/src/instrumentation.cpp b/rtl/src/instrumentation.cpp
index 1720440..868b4e9 100644
--- a/rtl/src/instrumentation.cpp
+++ b/rtl/src/instrumentation.cpp
@@ -138,6 +138,25 @@ static std::ostream& operator<<(std::ostream& os, JsSafeDouble val) {
     return os;
 }
 
+// Escapes a string for use inside a JSON string literal
+static std::string json_escape(const char* str) {
+    std::string out;
+    for (; str && *str; ++str) {
+        char c = *str;
+        if (c == '"' || c == '\\') {
+            out += '\\';
+            out += c;
+        } else if (static_cast<unsigned char>(c) < 0x20) {
+            char buf[8];
+            std::snprintf(buf, sizeof(buf), "\\u%04x", static_cast<unsigned>(static_cast<unsigned char>(c)));
+            out += buf;
+        } else {
+            out += c;
+        }
+    }
+    return out;
+}
+
 class DaisyInstrumentationState {
 private:
     size_t next_region_id = 1;
@@ -203,7 +222,7 @@ private:
         entry << "{";
         entry << "\"ph\":\"X\",";
         entry << "\"cat\":\"region,daisy\",";
-        entry << "\"name\":\"" << md.function_name << " [L" << md.line_begin << "-" << md.line_end << "]\",";
+        entry << "\"name\":\"" << json_escape(md.function_name) << " [L" << md.line_begin << "-" << md.line_end << "]\",";
         entry << "\"pid\":" << getpid() << ",";
         entry << "\"tid\":" << gettid() << ",";
         if (region.starts.size() > index) {
@@ -215,10 +234,10 @@ private:
         entry << "\"args\":{";
 
         // Source location
-        entry << "\"function\":\"" << md.function_name << "\",";
-        entry << "\"module\":\"" << std::filesystem::path(md.file_name).filename().string() << "\",";
+        entry << "\"function\":\"" << json_escape(md.function_name) << "\",";
+        entry << "\"module\":\"" << json_escape(std::filesystem::path(md.file_name).filename().string().c_str()) << "\",";
         entry << "\"source_ranges\":[";
-        entry << "{\"file\":\"" << md.file_name << "\",";
+        entry << "{\"file\":\"" << json_escape(md.file_name) << "\",";
         entry << "\"from\":{\"line\":" << md.line_begin << ",\"col\":" << md.column_begin << "},";
         entry << "\"to\":{\"line\":" << md.line_end << ",\"col\":" << md.column_end << "}";
         entry << "}],";
@@ -227,27 +246,27 @@ private:
         entry << "\"docc\":";
         entry << "{";
         if (md.sdfg_name) {
-            entry << "\"sdfg_name\":\"" << md.sdfg_name << "\",";
+            entry << "\"sdfg_name\":\"" << json_escape(md.sdfg_name) << "\",";
         } else {
             entry << "\"sdfg_name\":\"\",";
         }
         if (md.sdfg_file) {
-            entry << "\"sdfg_file\":\"" << md.sdfg_file << "\",";
+            entry << "\"sdfg_file\":\"" << json_escape(md.sdfg_file) << "\",";
         } else {
             entry << "\"sdfg_file\":\"\",";
         }
         if (md.arg_capture_path) {
-            entry << "\"arg_capture_path\":\"" << md.arg_capture_path << "\",";
+            entry << "\"arg_capture_path\":\"" << json_escape(md.arg_capture_path) << "\",";
         } else {
             entry << "\"arg_capture_path\":\"\",";
         }
         if (md.features_file) {
-            entry << "\"features_file\":\"" << md.features_file << "\",";
+            entry << "\"features_file\":\"" << json_escape(md.features_file) << "\",";
         } else {
             entry << "\"features_file\":\"\",";
         }
         if (md.opt_report_file) {
-            entry << "\"opt_report_file\":\"" << md.opt_report_file << "\"";
+            entry << "\"opt_report_file\":\"" << json_escape(md.opt_report_file) << "\"";
         } else {
             entry << "\"opt_report_file\":\"\"";
         }
@@ -257,7 +276,7 @@ private:
 
             // Element metadata
             entry << "\"element_id\":" << md.element_id << ",";
-            entry << "\"element_type\":\"" << md.element_type << "\",";
+            entry << "\"element_type\":\"" << json_escape(md.element_type) << "\",";
 
             // Deprecated, is also inside loop info
             entry << "\"loopnest_index\":" << md.loopnest_index << ",";
@@ -279,7 +298,7 @@ private:
         entry << "},";
 
         if (md.target_type) {
-            entry << "\"target_type\":\"" << md.target_type << "\",";
+            entry << "\"target_type\":\"" << json_escape(md.target_type) << "\",";
         } else {
             entry << "\"target_type\":\"\",";
         }
@@ -289,7 +308,7 @@ private:
         if (index < region.counts.size()) {
             auto& counts = region.counts.at(index);
             for (size_t i = 0; i < counts.size(); ++i) {
-                entry << "\"" << event_names[i] << "\":" << counts[i];
+                entry << "\"" << json_escape(event_names[i].c_str()) << "\":" << counts[i];
                 if (i < counts.size() - 1) {
                     entry << ",";
                 }
@@ -335,7 +354,7 @@ private:
         entry << "{";
         entry << "\"ph\":\"X\",";
         entry << "\"cat\":\"aggregated_region,daisy\",";
-        entry << "\"name\":\"" << md.function_name << " [L" << md.line_begin << "-" << md.line_end << "]\",";
+        entry << "\"name\":\"" << json_escape(md.function_name) << " [L" << md.line_begin << "-" << md.line_end << "]\",";
         entry << "\"pid\":" << getpid() << ",";
         entry << "\"tid\":" << gettid() << ",";
         // First start
@@ -345,10 +364,10 @@ private:
         entry << "\"args\":{";
 
         // Source location
-        entry << "\"function\":\"" << md.function_name << "\",";
-        entry << "\"module\":\"" << std::filesystem::path(md.file_name).filename().string() << "\",";
+        entry << "\"function\":\"" << json_escape(md.function_name) << "\",";
+        entry << "\"module\":\"" << json_escape(std::filesystem::path(md.file_name).filename().string().c_str()) << "\",";
         entry << "\"source_ranges\":[";
-        entry << "{\"file\":\"" << md.file_name << "\",";
+        entry << "{\"file\":\"" << json_escape(md.file_name) << "\",";
         entry << "\"from\":{\"line\":" << md.line_begin << ",\"col\":" << md.column_begin << "},";
         entry << "\"to\":{\"line\":" << md.line_end << ",\"col\":" << md.column_end << "}";
         entry << "}],";
@@ -358,27 +377,27 @@ private:
         entry << "\"docc\":";
         entry << "{";
         if (md.sdfg_name) {
-            entry << "\"sdfg_name\":\"" << md.sdfg_name << "\",";
+            entry << "\"sdfg_name\":\"" << json_escape(md.sdfg_name) << "\",";
         } else {
             entry << "\"sdfg_name\":\"\",";
         }
         if (md.sdfg_file) {
-            entry << "\"sdfg_file\":\"" << md.sdfg_file << "\",";
+            entry << "\"sdfg_file\":\"" << json_escape(md.sdfg_file) << "\",";
         } else {
             entry << "\"sdfg_file\":\"\",";
         }
         if (md.arg_capture_path) {
-            entry << "\"arg_capture_path\":\"" << md.arg_capture_path << "\",";
+            entry << "\"arg_capture_path\":\"" << json_escape(md.arg_capture_path) << "\",";
         } else {
             entry << "\"arg_capture_path\":\"\",";
         }
         if (md.features_file) {
-            entry << "\"features_file\":\"" << md.features_file << "\",";
+            entry << "\"features_file\":\"" << json_escape(md.features_file) << "\",";
         } else {
             entry << "\"features_file\":\"\",";
         }
         if (md.opt_report_file) {
-            entry << "\"opt_report_file\":\"" << md.opt_report_file << "\"";
+            entry << "\"opt_report_file\":\"" << json_escape(md.opt_report_file) << "\"";
         } else {
             entry << "\"opt_report_file\":\"\"";
         }
@@ -388,7 +407,7 @@ private:
 
             // Element metadata
             entry << "\"element_id\":" << md.element_id << ",";
-            entry << "\"element_type\":\"" << md.element_type << "\",";
+            entry << "\"element_type\":\"" << json_escape(md.element_type) << "\",";
 
             // Deprecated, is also inside loop info
             entry << "\"loopnest_index\":" << md.loopnest_index << ",";
@@ -410,7 +429,7 @@ private:
         entry << "},";
 
         if (md.target_type) {
-            entry << "\"target_type\":\"" << md.target_type << "\",";
+            entry << "\"target_type\":\"" << json_escape(md.target_type) << "\",";
         } else {
             entry << "\"target_type\":\"\",";
         }
@@ -419,7 +438,7 @@ private:
         // PAPI counters
         // (a region that was never exited has no counter statistics)
         for (size_t i = 0; i < event_names.size() && i < region.mean.size(); ++i) {
-            entry << "\"" << event_names[i] << "\":{";
+            entry << "\"" << json_escape(event_names[i].c_str()) << "\":{";
             entry << "\"mean\":" << region.mean[i] << ",";
             entry << "\"variance\":" << region.variance[i] << ",";
             entry << "\"count\":" << region.n[i] << ",";
@@ -430,7 +449,7 @@ private:
         }
         // Static counters
         for (auto& [name, mean] : region.static_counters_mean) {
-            entry << "\"static:::" << name << "\":{";
+            entry << "\"static:::" << json_escape(name.c_str()) << "\":{";
             entry << "\"mean\":" << JsSafeDouble(mean) << ", ";
             entry << "\"variance\":" << JsSafeDouble(region.static_counters_variance[name]) << ", ";
             entry << "\"count\":" << region.static_counters_n[name] << ", ";
-- 
2.43.0


From 951abefa314fe76dffc82c2b589998e3cd401d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:56 +0000
Subject: [PATCH 10/31] fix: simple paths do not revisit their source

---
 sdfg/src/graph/graph.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sdfg/src/graph/graph.cpp b/sdfg/src/graph/graph.cpp
index f889f9a..7ed300a 100644
--- a/sdfg/src/graph/graph.cpp
+++ b/sdfg/src/graph/graph.cpp
@@ -250,6 +250,9 @@ const std::list<std::list<Edge>> all_simple_paths(const Graph& graph, const Vert
     std::list<std::list<Edge>> all_paths;
 
     std::set<Vertex> visited;
+    if (src != dst) {
+        visited.insert(src);
+    }
     std::list<Edge> current_path;
 
     auto [eb, ee] = boost::out_edges(src, graph);
-- 
2.43.0


From b8d676f957806c2a09418cb145bb456568a44e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:56 +0000
Subject: [PATCH 11/31] fix: post_dominator_tree removes its synthetic exit
 vertex from graph and result

---
 sdfg/src/graph/graph.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sdfg/src/graph/graph.cpp b/sdfg/src/graph/graph.cpp
index 7ed300a..5cbb4f9 100644
--- a/sdfg/src/graph/graph.cpp
+++ b/sdfg/src/graph/graph.cpp
@@ -176,7 +176,14 @@ const std::unordered_map<Vertex, Vertex> post_dominator_tree(Graph& graph) {
 
     // Remove synthetic super-terminal if added
     if (modified) {
+        pdom_tree.erase(src);
+        for (auto& entry : pdom_tree) {
+            if (entry.second == src) {
+                entry.second = boost::graph_traits<Graph>::null_vertex();
+            }
+        }
         boost::clear_vertex(src, graph);
+        boost::remove_vertex(src, graph);
     }
 
     return pdom_tree;
-- 
2.43.0


From d03dd1d3ca389c8d47c30f650b95d3ab67d22a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:40 +0000
Subject: [PATCH 12/31] fix: mask unreachable vertices for the dominator
 algorithm

---
 sdfg/src/graph/graph.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sdfg/src/graph/graph.cpp b/sdfg/src/graph/graph.cpp
index 5cbb4f9..5941dfa 100644
--- a/sdfg/src/graph/graph.cpp
+++ b/sdfg/src/graph/graph.cpp
@@ -1,5 +1,7 @@
 #include "sdfg/graph/graph.h"
 
+#include <limits>
+
 namespace sdfg {
 namespace graph {
 
@@ -97,7 +99,7 @@ const std::unordered_map<Vertex, Vertex> dominator_tree(const Graph& graph, cons
         boost::put(boost_index_map, *vi, i);
     }
 
-    std::vector<size_t> df_num(num_vertices(graph), 0);
+    std::vector<size_t> df_num(num_vertices(graph), std::numeric_limits<size_t>::max());
     auto df_num_map(boost::make_iterator_property_map(df_num.begin(), boost_index_map));
 
     std::vector<Vertex> parent(num_vertices(graph), boost::graph_traits<Graph>::null_vertex());
@@ -155,7 +157,7 @@ const std::unordered_map<Vertex, Vertex> post_dominator_tree(Graph& graph) {
         boost::put(boost_index_map, *vi, i);
     }
 
-    std::vector<size_t> df_num(num_vertices(rgraph), 0);
+    std::vector<size_t> df_num(num_vertices(rgraph), std::numeric_limits<size_t>::max());
     auto df_num_map(boost::make_iterator_property_map(df_num.begin(), boost_index_map));
 
     std::vector<Vertex> parent(num_vertices(rgraph), boost::graph_traits<Graph>::null_vertex());
-- 
2.43.0


From 627a0f1beda3833ddd10de7ca5053e4f5b2c94fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:20 +0000
Subject: [PATCH 13/31] fix: initialise the HTTP status of failed transfers

---
 rpc/include/sdfg/util/utils_curl.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rpc/include/sdfg/util/utils_curl.h b/rpc/include/sdfg/util/utils_curl.h
index 8efcc53..74896f3 100644
--- a/rpc/include/sdfg/util/utils_curl.h
+++ b/rpc/include/sdfg/util/utils_curl.h
@@ -4,8 +4,8 @@
 #include <string>
 
 struct HttpResult {
-    CURLcode curl_code;
-    long http_status;
+    CURLcode curl_code = CURLE_OK;
+    long http_status = 0;
     std::string body;
     std::string error_message;
 };
-- 
2.43.0


From bc9ea2b9088a270a429927e8b965cf556d6b9998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:20 +0000
Subject: [PATCH 14/31] fix: integer power does not square the base beyond the
 last bit

---
 rtl/include/daisy_rtl/daisy_rtl.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rtl/include/daisy_rtl/daisy_rtl.h b/rtl/include/daisy_rtl/daisy_rtl.h
index 2251794..9d7a260 100644
--- a/rtl/include/daisy_rtl/daisy_rtl.h
+++ b/rtl/include/daisy_rtl/daisy_rtl.h
@@ -144,7 +144,9 @@ inline int __daisy_sym_pow(int base, int exp) {
             result *= base;
         }
         exp >>= 1;
-        base *= base;
+        if (exp) {
+            base *= base;
+        }
     }
     return result;
 }
-- 
2.43.0


From 76b38157a4d49085b15dd1839957c40eb6013dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:31 +0000
Subject: [PATCH 15/31] fix: affine_coefficients: read exponents in the order
 of the polynomial's generators

---
 sdfg/src/symbolic/polynomials.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sdfg/src/symbolic/polynomials.cpp b/sdfg/src/symbolic/polynomials.cpp
index e5c8cb7..4dff47b 100644
--- a/sdfg/src/symbolic/polynomials.cpp
+++ b/sdfg/src/symbolic/polynomials.cpp
@@ -24,6 +24,10 @@ AffineCoeffs affine_coefficients(Polynomial poly, SymbolVec& symbols) {
     }
     coeffs[symbolic::symbol("__daisy_constant__")] = symbolic::zero();
 
+    // The exponents are ordered like the generators of the polynomial, not like the given symbols
+    SymbolSet generators(symbols.begin(), symbols.end());
+    SymbolVec ordered(generators.begin(), generators.end());
+
     auto& D = poly->get_poly().get_dict();
     for (auto& [exponents, coeff] : D) {
         // Check if sum of exponents is <= 1
@@ -32,7 +36,7 @@ AffineCoeffs affine_coefficients(Polynomial poly, SymbolVec& symbols) {
         for (size_t i = 0; i < exponents.size(); i++) {
             auto& e = exponents[i];
             if (e > 0) {
-                symbol = symbols[i];
+                symbol = ordered[i];
             }
             total_deg += e;
         }
-- 
2.43.0


From 744a95131532147fee54d5d6c1933db1db35c154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:31 +0000
Subject: [PATCH 16/31] fix: is_contiguous: the step must be one for every
 value of the parameters

---
 sdfg/src/symbolic/series.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sdfg/src/symbolic/series.cpp b/sdfg/src/symbolic/series.cpp
index 7c7fae3..47f51ac 100644
--- a/sdfg/src/symbolic/series.cpp
+++ b/sdfg/src/symbolic/series.cpp
@@ -63,7 +63,9 @@ bool is_contiguous_affine(const Expression expr, const Symbol sym, const Assumpt
         signed long mul_value = mul_int->as_int();
         signed long offset_value = offset_int->as_int();
         if (mul_value == 1 && offset_value == 1) {
-            return true;
+            // The coefficients are lower bounds: the step must be exactly one
+            auto max_step = maximum(symbolic::expand(symbolic::sub(expr, sym)), {}, assums);
+            return !max_step.is_null() && symbolic::eq(max_step, symbolic::one());
         }
     } catch (SymEngine::SymEngineException&) {
         return false;
-- 
2.43.0


From 6dad8c05ee22dabfff6caaa85d62a6a4a349d9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:31 +0000
Subject: [PATCH 17/31] fix: delinearize: the remainder must be below the
 stride for every parameter value

---
 sdfg/src/symbolic/utils.cpp | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/sdfg/src/symbolic/utils.cpp b/sdfg/src/symbolic/utils.cpp
index f404343..95a2767 100644
--- a/sdfg/src/symbolic/utils.cpp
+++ b/sdfg/src/symbolic/utils.cpp
@@ -674,10 +674,28 @@ MultiExpression delinearize(const MultiExpression& expr, const Assumptions& assu
                 break;
             }
 
-            // remaining must be less than stride
-            auto ub_stride = maximum(stride, {}, assums);
-            auto ub_remaining = maximum(remaining, {}, assums);
-            auto cond_stride = symbolic::Ge(ub_stride, ub_remaining);
+            // remaining must be less than stride for every value of the symbols in the stride
+            auto stride_symbols = symbolic::atoms(stride);
+            Expression ub_remaining = symbolic::zero();
+            for (const auto& [sym, coeff] : aff_coeffs) {
+                if (symbolic::eq(sym, new_dim)) {
+                    continue;
+                }
+                auto ub_sym = maximum(sym, stride_symbols, assums);
+                if (ub_sym.is_null()) {
+                    ub_remaining = SymEngine::null;
+                    break;
+                }
+                ub_remaining = symbolic::add(ub_remaining, symbolic::mul(coeff, ub_sym));
+            }
+            if (ub_remaining.is_null()) {
+                break;
+            }
+            auto slack_lb = minimum(symbolic::expand(symbolic::sub(stride, ub_remaining)), {}, assums);
+            if (slack_lb.is_null()) {
+                break;
+            }
+            auto cond_stride = symbolic::Ge(slack_lb, symbolic::one());
             if (!symbolic::is_true(cond_stride)) {
                 break;
             }
-- 
2.43.0


From b706b1af36255f2dca8ac0dd26b4b81352c9d29c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:35 +0000
Subject: [PATCH 18/31] fix: bounds of idiv, imod and iabs are not those of a
 zero-extension; casts bound only what they preserve

---
 sdfg/src/symbolic/extreme_values.cpp | 114 +++++++++++----------------
 1 file changed, 47 insertions(+), 67 deletions(-)

diff --git a/sdfg/src/symbolic/extreme_values.cpp b/sdfg/src/symbolic/extreme_values.cpp
index 9e6adfd..4950f98 100644
--- a/sdfg/src/symbolic/extreme_values.cpp
+++ b/sdfg/src/symbolic/extreme_values.cpp
@@ -6,6 +6,33 @@ namespace sdfg {
 namespace symbolic {
 
 size_t MAX_DEPTH = 100;
+
+// All functions (idiv, imod, iabs, zext_i64, ...) share one type code, only the name tells the casts apart
+static bool is_integer_cast(const SymEngine::Basic& expr) {
+    if (!SymEngine::is_a<SymEngine::FunctionSymbol>(expr)) {
+        return false;
+    }
+    const auto& name = SymEngine::down_cast<const SymEngine::FunctionSymbol&>(expr).get_name();
+    return name == "zext_i64" || name == "trunc_i32";
+}
+
+// Bound of a cast, given the bounds of its argument. A cast preserves the order of its arguments only where it preserves
+// their values, i.e., for non-negative arguments of a zero-extension and for arguments of a truncation that fit.
+static Expression
+integer_cast_bound(const Expression& cast, const Expression& min_arg, const Expression& max_arg, bool upper) {
+    bool zext = SymEngine::down_cast<const SymEngine::FunctionSymbol&>(*cast).get_name() == "zext_i64";
+    if (!min_arg.is_null() && !max_arg.is_null() && symbolic::eq(min_arg, max_arg)) {
+        return zext ? symbolic::zext_i64(min_arg) : symbolic::trunc_i32(min_arg);
+    }
+
+    bool above = !min_arg.is_null() && symbolic::is_true(symbolic::Ge(min_arg, symbolic::integer(zext ? 0 : INT32_MIN)));
+    bool below = zext || (!max_arg.is_null() && symbolic::is_true(symbolic::Le(max_arg, symbolic::integer(INT32_MAX))));
+    if (!above || !below) {
+        return SymEngine::null;
+    }
+    return upper ? max_arg : min_arg;
+}
+
 Expression minimum(const Expression expr, const SymbolSet& parameters, const Assumptions& assumptions, const size_t depth);
 Expression maximum(const Expression expr, const SymbolSet& parameters, const Assumptions& assumptions, const size_t depth);
 
@@ -23,22 +50,11 @@ Expression minimum(const Expression expr, const SymbolSet& parameters, const Ass
         return expr;
     } else if (SymEngine::is_a<SymEngine::Infty>(*expr)) {
         return expr;
-    } else if (SymEngine::is_a<symbolic::ZExtI64Function>(*expr)) {
-        auto zext = SymEngine::rcp_static_cast<const symbolic::ZExtI64Function>(expr);
-        auto min_arg = minimum(zext->get_args()[0], parameters, assumptions, depth + 1);
-        if (min_arg == SymEngine::null) {
-            return SymEngine::null;
-        } else {
-            return symbolic::zext_i64(min_arg);
-        }
-    } else if (SymEngine::is_a<symbolic::TruncI32Function>(*expr)) {
-        auto trunc = SymEngine::rcp_static_cast<const symbolic::TruncI32Function>(expr);
-        auto min_arg = minimum(trunc->get_args()[0], parameters, assumptions, depth + 1);
-        if (min_arg == SymEngine::null) {
-            return SymEngine::null;
-        } else {
-            return symbolic::trunc_i32(min_arg);
-        }
+    } else if (is_integer_cast(*expr)) {
+        auto arg = expr->get_args()[0];
+        auto min_arg = minimum(arg, parameters, assumptions, depth + 1);
+        auto max_arg = maximum(arg, parameters, assumptions, depth + 1);
+        return integer_cast_bound(expr, min_arg, max_arg, false);
     }
 
     // Symbol
@@ -179,23 +195,11 @@ Expression maximum(const Expression expr, const SymbolSet& parameters, const Ass
         return SymEngine::null;
     }
 
-    if (SymEngine::is_a<symbolic::ZExtI64Function>(*expr)) {
-        auto zext = SymEngine::rcp_static_cast<const symbolic::ZExtI64Function>(expr);
-        auto max_arg = maximum(zext->get_args()[0], parameters, assumptions, depth + 1);
-        if (max_arg == SymEngine::null) {
-            return SymEngine::null;
-        } else {
-            return symbolic::zext_i64(max_arg);
-        }
-    }
-    if (SymEngine::is_a<symbolic::TruncI32Function>(*expr)) {
-        auto trunc = SymEngine::rcp_static_cast<const symbolic::TruncI32Function>(expr);
-        auto max_arg = maximum(trunc->get_args()[0], parameters, assumptions, depth + 1);
-        if (max_arg == SymEngine::null) {
-            return SymEngine::null;
-        } else {
-            return symbolic::trunc_i32(max_arg);
-        }
+    if (is_integer_cast(*expr)) {
+        auto arg = expr->get_args()[0];
+        auto min_arg = minimum(arg, parameters, assumptions, depth + 1);
+        auto max_arg = maximum(arg, parameters, assumptions, depth + 1);
+        return integer_cast_bound(expr, min_arg, max_arg, true);
     }
 
     // Mul
@@ -335,23 +339,11 @@ Expression minimum_new(
         }
     }
 
-    if (SymEngine::is_a<symbolic::ZExtI64Function>(*expr)) {
-        auto zext = SymEngine::rcp_static_cast<const symbolic::ZExtI64Function>(expr);
-        auto min_arg = minimum_new(zext->get_args()[0], parameters, assumptions, depth + 1, tight);
-        if (min_arg == SymEngine::null) {
-            return SymEngine::null;
-        } else {
-            return symbolic::zext_i64(min_arg);
-        }
-    }
-    if (SymEngine::is_a<symbolic::TruncI32Function>(*expr)) {
-        auto trunc = SymEngine::rcp_static_cast<const symbolic::TruncI32Function>(expr);
-        auto min_arg = minimum_new(trunc->get_args()[0], parameters, assumptions, depth + 1, tight);
-        if (min_arg == SymEngine::null) {
-            return SymEngine::null;
-        } else {
-            return symbolic::trunc_i32(min_arg);
-        }
+    if (is_integer_cast(*expr)) {
+        auto arg = expr->get_args()[0];
+        auto min_arg = minimum_new(arg, parameters, assumptions, depth + 1, tight);
+        auto max_arg = maximum_new(arg, parameters, assumptions, depth + 1, tight);
+        return integer_cast_bound(expr, min_arg, max_arg, false);
     }
 
     // Symbol
@@ -503,23 +495,11 @@ Expression maximum_new(
         }
     }
 
-    if (SymEngine::is_a<symbolic::ZExtI64Function>(*expr)) {
-        auto zext = SymEngine::rcp_static_cast<const symbolic::ZExtI64Function>(expr);
-        auto max_arg = maximum_new(zext->get_args()[0], parameters, assumptions, depth + 1, tight);
-        if (max_arg == SymEngine::null) {
-            return SymEngine::null;
-        } else {
-            return symbolic::zext_i64(max_arg);
-        }
-    }
-    if (SymEngine::is_a<symbolic::TruncI32Function>(*expr)) {
-        auto trunc = SymEngine::rcp_static_cast<const symbolic::TruncI32Function>(expr);
-        auto max_arg = maximum_new(trunc->get_args()[0], parameters, assumptions, depth + 1, tight);
-        if (max_arg == SymEngine::null) {
-            return SymEngine::null;
-        } else {
-            return symbolic::trunc_i32(max_arg);
-        }
+    if (is_integer_cast(*expr)) {
+        auto arg = expr->get_args()[0];
+        auto min_arg = minimum_new(arg, parameters, assumptions, depth + 1, tight);
+        auto max_arg = maximum_new(arg, parameters, assumptions, depth + 1, tight);
+        return integer_cast_bound(expr, min_arg, max_arg, true);
     }
 
     // Symbol
-- 
2.43.0


From cb7e2f19e489e78db8b9bd90f112f2ded030ad09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:40 +0000
Subject: [PATCH 19/31] fix: bounds: 0 * infinity and infinity - infinity are
 unknown

---
 sdfg/src/symbolic/extreme_values.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/sdfg/src/symbolic/extreme_values.cpp b/sdfg/src/symbolic/extreme_values.cpp
index 4950f98..9618d94 100644
--- a/sdfg/src/symbolic/extreme_values.cpp
+++ b/sdfg/src/symbolic/extreme_values.cpp
@@ -99,6 +99,10 @@ Expression minimum(const Expression expr, const SymbolSet& parameters, const Ass
                 Expression val = (mask & (1ULL << i)) ? bound.second : bound.first;
                 product = symbolic::mul(product, val);
             }
+            // 0 * infinity
+            if (SymEngine::is_a<SymEngine::NaN>(*product)) {
+                return SymEngine::null;
+            }
             if (min_product == SymEngine::null) {
                 min_product = product;
             } else {
@@ -124,6 +128,10 @@ Expression minimum(const Expression expr, const SymbolSet& parameters, const Ass
             } else {
                 lbs = symbolic::add(lbs, lb);
             }
+            // infinity - infinity
+            if (SymEngine::is_a<SymEngine::NaN>(*lbs)) {
+                return SymEngine::null;
+            }
         }
         return lbs;
     }
@@ -232,6 +240,10 @@ Expression maximum(const Expression expr, const SymbolSet& parameters, const Ass
                 Expression val = (mask & (1ULL << i)) ? bound.second : bound.first;
                 product = symbolic::mul(product, val);
             }
+            // 0 * infinity
+            if (SymEngine::is_a<SymEngine::NaN>(*product)) {
+                return SymEngine::null;
+            }
             if (max_product == SymEngine::null) {
                 max_product = product;
             } else {
@@ -257,6 +269,10 @@ Expression maximum(const Expression expr, const SymbolSet& parameters, const Ass
             } else {
                 ubs = symbolic::add(ubs, ub);
             }
+            // infinity - infinity
+            if (SymEngine::is_a<SymEngine::NaN>(*ubs)) {
+                return SymEngine::null;
+            }
         }
         return ubs;
     }
-- 
2.43.0


From 857f0e91be82665da8de3139a54986b4c081d04b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:50 +0000
Subject: [PATCH 20/31] fix: For2Map keeps a loop whose induction variable is
 read afterwards

---
 sdfg/include/sdfg/analysis/loop_analysis.h    |  9 ++++
 sdfg/src/analysis/loop_analysis.cpp           | 46 +++++++++++++++++++
 .../structured_control_flow/for2map.cpp       |  2 +-
 3 files changed, 56 insertions(+), 1 deletion(-)

diff --git a/sdfg/include/sdfg/analysis/loop_analysis.h b/sdfg/include/sdfg/analysis/loop_analysis.h
index 0bdf0ae..0c295f4 100644
--- a/sdfg/include/sdfg/analysis/loop_analysis.h
+++ b/sdfg/include/sdfg/analysis/loop_analysis.h
@@ -177,6 +177,15 @@ public:
     static symbolic::Expression
     canonical_bound(structured_control_flow::StructuredLoop* loop, const symbolic::Assumptions& assumptions);
 
+    /**
+     * @brief Check if the value of a loop's induction variable may be read after the loop
+     * @param loop The structured loop to check
+     * @param analysis_manager The analysis manager
+     * @return true unless every later read is preceded by another write
+     */
+    static bool
+    is_indvar_used_after(structured_control_flow::StructuredLoop* loop, analysis::AnalysisManager& analysis_manager);
+
     /**
      * @brief Describes the stride of a loop's update as a constant.
      *
diff --git a/sdfg/src/analysis/loop_analysis.cpp b/sdfg/src/analysis/loop_analysis.cpp
index 4060347..f5ebade 100644
--- a/sdfg/src/analysis/loop_analysis.cpp
+++ b/sdfg/src/analysis/loop_analysis.cpp
@@ -3,6 +3,8 @@
 #include <vector>
 
 #include "sdfg/analysis/assumptions_analysis.h"
+#include "sdfg/analysis/dominance_analysis.h"
+#include "sdfg/analysis/users.h"
 #include "sdfg/structured_control_flow/map.h"
 #include "sdfg/structured_control_flow/structured_loop.h"
 #include "sdfg/structured_control_flow/while.h"
@@ -248,6 +250,50 @@ bool LoopAnalysis::is_contiguous(structured_control_flow::StructuredLoop* loop,
     return symbolic::series::is_contiguous(loop->update(), loop->indvar(), assumptions);
 }
 
+bool LoopAnalysis::
+    is_indvar_used_after(structured_control_flow::StructuredLoop* loop, analysis::AnalysisManager& analysis_manager) {
+    auto& users = analysis_manager.get<analysis::Users>();
+    auto& dominance = analysis_manager.get<analysis::DominanceAnalysis>();
+
+    auto indvar = loop->indvar()->get_name();
+    auto init = users.get_user(indvar, loop, Use::WRITE, true);
+
+    std::unordered_set<User*> loop_uses;
+    UsersView loop_view(users, *loop);
+    for (auto& user : loop_view.uses(indvar)) {
+        loop_uses.insert(user);
+    }
+
+    auto uses_after = users.all_uses_after(*init);
+    for (auto& use : users.uses(indvar)) {
+        if (use->use() == Use::WRITE || !uses_after.contains(use)) {
+            continue;
+        }
+        auto for_user = dynamic_cast<ForUser*>(use);
+        bool is_own_init = for_user && for_user->is_init() && for_user->element() == loop;
+        if (loop_uses.contains(use) && !is_own_init) {
+            continue;
+        }
+
+        // A write that dominates the read but not the loop lies on every path between them
+        bool overwritten = false;
+        for (auto& write : users.writes(indvar)) {
+            if (loop_uses.contains(write)) {
+                continue;
+            }
+            if (dominance.dominates(*write, *use) && !dominance.dominates(*write, *init)) {
+                overwritten = true;
+                break;
+            }
+        }
+        if (!overwritten) {
+            return true;
+        }
+    }
+
+    return false;
+}
+
 symbolic::Expression LoopAnalysis::
     canonical_bound(structured_control_flow::StructuredLoop* loop, AssumptionsAnalysis& assumptions_analysis) {
     auto assums = assumptions_analysis.get(*loop, true);
diff --git a/sdfg/src/passes/structured_control_flow/for2map.cpp b/sdfg/src/passes/structured_control_flow/for2map.cpp
index 676961b..6ec257d 100644
--- a/sdfg/src/passes/structured_control_flow/for2map.cpp
+++ b/sdfg/src/passes/structured_control_flow/for2map.cpp
@@ -128,7 +128,7 @@ bool For2MapPass::can_be_applied(
     }
 
     // c. indvar not used after for
-    if (locals.find(for_stmt.indvar()->get_name()) != locals.end()) {
+    if (analysis::LoopAnalysis::is_indvar_used_after(&for_stmt, analysis_manager)) {
         return false;
     }
 
-- 
2.43.0


From 4507f9aa1de200cb1c0f25229d80d6236c989322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:50 +0000
Subject: [PATCH 21/31] fix: LoopNormalization leaves loops whose induction
 variable is read afterwards or whose bound changes in the body

---
 .../structured_control_flow/loop_normalization.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/sdfg/src/passes/structured_control_flow/loop_normalization.cpp b/sdfg/src/passes/structured_control_flow/loop_normalization.cpp
index 8a264f1..8afe2bd 100644
--- a/sdfg/src/passes/structured_control_flow/loop_normalization.cpp
+++ b/sdfg/src/passes/structured_control_flow/loop_normalization.cpp
@@ -182,6 +182,11 @@ bool LoopNormalization::accept(structured_control_flow::For& loop) {
         return applied;
     }
 
+    // The following steps change the value of indvar after the loop
+    if (analysis::LoopAnalysis::is_indvar_used_after(&loop, analysis_manager_)) {
+        return applied;
+    }
+
     try {
         new_cnf = symbolic::conjunctive_normal_form(condition);
     } catch (const symbolic::CNFException e) {
@@ -247,6 +252,15 @@ bool LoopNormalization::accept(structured_control_flow::For& loop) {
             return applied;
         }
 
+        // Bound and initial value must not change in the loop body
+        for (auto& expr : {symbolic::Expression(lhs), symbolic::Expression(loop.init())}) {
+            for (auto& sym : symbolic::atoms(expr)) {
+                if (symbolic::eq(sym, indvar) || !body_users.writes(sym->get_name()).empty()) {
+                    return applied;
+                }
+            }
+        }
+
         // Update loop parameters
         auto new_init = symbolic::add(lhs, symbolic::one());
         auto new_update = symbolic::add(indvar, symbolic::one());
-- 
2.43.0


From f8588904736d706cd2bb46c62409f0d6371161de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:50 +0000
Subject: [PATCH 22/31] fix: LoopTiling requires an upper bound and an
 induction variable that is not read afterwards

---
 sdfg/src/transformations/loop_tiling.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/sdfg/src/transformations/loop_tiling.cpp b/sdfg/src/transformations/loop_tiling.cpp
index 32cc927..529b5a9 100644
--- a/sdfg/src/transformations/loop_tiling.cpp
+++ b/sdfg/src/transformations/loop_tiling.cpp
@@ -21,7 +21,17 @@ bool LoopTiling::can_be_applied(builder::StructuredSDFGBuilder& builder, analysi
     }
     // Criterion contiguous loop
     auto& assumptions_analysis = analysis_manager.get<analysis::AssumptionsAnalysis>();
-    return analysis::LoopAnalysis::is_contiguous(&loop_, assumptions_analysis);
+    if (!analysis::LoopAnalysis::is_contiguous(&loop_, assumptions_analysis)) {
+        return false;
+    }
+
+    // Criterion: condition is an upper bound, i.e., the tile loop cannot step over its end
+    if (analysis::LoopAnalysis::canonical_bound(&loop_, assumptions_analysis).is_null()) {
+        return false;
+    }
+
+    // Criterion: the tiled loop does not set the indvar if there are no iterations
+    return !analysis::LoopAnalysis::is_indvar_used_after(&loop_, analysis_manager);
 };
 
 void LoopTiling::apply(builder::StructuredSDFGBuilder& builder, analysis::AnalysisManager& analysis_manager) {
-- 
2.43.0


From 86feb510ecc218429b6345142a794cc0d0f0f7c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:50 +0000
Subject: [PATCH 23/31] fix: MapFusion refuses consumers that overwrite what
 the producer uses and types its temporary by the produced element

---
 sdfg/src/transformations/map_fusion.cpp | 34 ++++++++++++++++++++++---
 1 file changed, 31 insertions(+), 3 deletions(-)

diff --git a/sdfg/src/transformations/map_fusion.cpp b/sdfg/src/transformations/map_fusion.cpp
index 06dcd77..433f0dc 100644
--- a/sdfg/src/transformations/map_fusion.cpp
+++ b/sdfg/src/transformations/map_fusion.cpp
@@ -78,6 +78,21 @@ bool MapFusion::can_be_applied(builder::StructuredSDFGBuilder& builder, analysis
     auto first_args = arguments_analysis.arguments(analysis_manager, first_map_);
     auto second_args = arguments_analysis.arguments(analysis_manager, second_loop_);
 
+    // Criterion: The producer is re-executed in the second loop, so the second loop must not overwrite
+    // what the first map reads or writes, and must not read a scalar computed by the first map
+    for (const auto& [name, first_arg] : first_args) {
+        auto second_arg = second_args.find(name);
+        if (second_arg == second_args.end()) {
+            continue;
+        }
+        if (second_arg->second.is_output) {
+            return false;
+        }
+        if (first_arg.is_output && first_arg.is_scalar && second_arg->second.is_input) {
+            return false;
+        }
+    }
+
     // Find containers that are outputs of first map and inputs of second map
     std::unordered_set<std::string> first_outputs;
     for (const auto& [name, arg] : first_args) {
@@ -176,6 +191,7 @@ bool MapFusion::can_be_applied(builder::StructuredSDFGBuilder& builder, analysis
                 }
 
                 // Check all read memlets from this access
+                data_flow::Subset access_subset;
                 for (auto& memlet : dataflow.out_edges(*access)) {
                     if (memlet.type() != data_flow::MemletType::Computational) {
                         return false;
@@ -186,6 +202,12 @@ bool MapFusion::can_be_applied(builder::StructuredSDFGBuilder& builder, analysis
                     if (consumer_subset.size() != 1) {
                         return false;
                     }
+                    // The access node is redirected to one temp: all of its reads must agree
+                    if (access_subset.empty()) {
+                        access_subset = consumer_subset;
+                    } else if (!symbolic::eq(access_subset.at(0), consumer_subset.at(0))) {
+                        return false;
+                    }
                     unique_subsets.insert(consumer_subset.at(0));
                 }
             }
@@ -262,10 +284,16 @@ void MapFusion::apply(builder::StructuredSDFGBuilder& builder, analysis::Analysi
     for (size_t cand_idx = 0; cand_idx < fusion_candidates_.size(); ++cand_idx) {
         auto& candidate = fusion_candidates_[cand_idx];
 
-        // Create a temp scalar for this candidate
-        auto& container_type = sdfg.type(candidate.container);
+        // Create a temp scalar for this candidate with the type of the produced element
+        types::PrimitiveType element_type = sdfg.type(candidate.container).primitive_type();
+        for (auto& edge : first_dataflow.edges()) {
+            auto* dst_access = dynamic_cast<const data_flow::AccessNode*>(&edge.dst());
+            if (dst_access != nullptr && dst_access->data() == candidate.container) {
+                element_type = edge.base_type().primitive_type();
+            }
+        }
         std::string temp_name = builder.find_new_name("_fused_tmp");
-        types::Scalar tmp_type(container_type.primitive_type());
+        types::Scalar tmp_type(element_type);
         builder.add_container(temp_name, tmp_type);
         candidate_temps.push_back(temp_name);
 
-- 
2.43.0


From 9cd909d15d722be43d5fcfe1f367fba906c84ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:53 +0000
Subject: [PATCH 24/31] fix: SequenceFusion keeps the assignments behind the
 fused sequence

---
 sdfg/src/passes/structured_control_flow/sequence_fusion.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sdfg/src/passes/structured_control_flow/sequence_fusion.cpp b/sdfg/src/passes/structured_control_flow/sequence_fusion.cpp
index f142965..df4b518 100644
--- a/sdfg/src/passes/structured_control_flow/sequence_fusion.cpp
+++ b/sdfg/src/passes/structured_control_flow/sequence_fusion.cpp
@@ -31,6 +31,10 @@ bool SequenceFusion::run_pass(builder::StructuredSDFGBuilder& builder, analysis:
                     i++;
                     continue;
                 }
+                // Keep the assignments of the transition behind the sequence
+                if (!child.second.empty()) {
+                    builder.add_block_after(*seq, *subseq, child.second.assignments(), child.second.debug_info());
+                }
                 builder.move_children(*subseq, *seq, i + 1);
                 builder.remove_child(*seq, i);
                 applied = true;
-- 
2.43.0


From 59a602256d6acc216e4ae02634be6d5facc11ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:53 +0000
Subject: [PATCH 25/31] fix: ConditionElimination keeps a condition that guards
 assignments after the loop

---
 .../structured_control_flow/condition_elimination.cpp      | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sdfg/src/passes/structured_control_flow/condition_elimination.cpp b/sdfg/src/passes/structured_control_flow/condition_elimination.cpp
index 5d5e3c1..5906738 100644
--- a/sdfg/src/passes/structured_control_flow/condition_elimination.cpp
+++ b/sdfg/src/passes/structured_control_flow/condition_elimination.cpp
@@ -20,6 +20,13 @@ bool ConditionElimination::eliminate_condition(
     auto loop_init = loop.init();
     auto loop_condition = loop.condition();
 
+    // Assignments after the loop would be executed unconditionally; only the indvar is unobservable
+    for (auto& entry : branch_root.at(0).second.assignments()) {
+        if (!symbolic::eq(entry.first, loop_indvar)) {
+            return false;
+        }
+    }
+
     // indvar shall not be read afterwards directly since loop init overrides it
     analysis::Users& users = this->analysis_manager_.get<analysis::Users>();
     analysis::UsersView loop_users(users, branch_root);
-- 
2.43.0


From e58b220169f1227af4a3cbe0981ef51ada1cfc72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:53 +0000
Subject: [PATCH 26/31] fix: CommonAssignmentElimination sinks only idempotent
 assignments of exhaustive branches

---
 .../common_assignment_elimination.cpp         | 28 +++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/sdfg/src/passes/structured_control_flow/common_assignment_elimination.cpp b/sdfg/src/passes/structured_control_flow/common_assignment_elimination.cpp
index 500a2f1..148c8f4 100644
--- a/sdfg/src/passes/structured_control_flow/common_assignment_elimination.cpp
+++ b/sdfg/src/passes/structured_control_flow/common_assignment_elimination.cpp
@@ -39,6 +39,23 @@ bool CommonAssignmentElimination::
                         continue;
                     }
 
+                    // Assignments may only be sunk if one of the branches is always taken
+                    if (!if_else_stmt->is_complete()) {
+                        continue;
+                    }
+
+                    // The branches keep their assignments, i.e., the sunk assignment must be idempotent
+                    symbolic::SymbolSet assigned;
+                    for (size_t j = 0; j < if_else_stmt->size(); j++) {
+                        auto& branch = if_else_stmt->at(j).first;
+                        if (branch.size() == 0) {
+                            continue;
+                        }
+                        for (auto& entry : branch.at(branch.size() - 1).second.assignments()) {
+                            assigned.insert(entry.first);
+                        }
+                    }
+
                     // Check waw dependencies
                     for (auto& entry : last_transition.assignments()) {
                         auto& first_assign = entry.first;
@@ -47,6 +64,17 @@ bool CommonAssignmentElimination::
                             continue;
                         }
 
+                        bool idempotent = true;
+                        for (auto& atom : symbolic::atoms(first_assignment)) {
+                            if (assigned.find(atom) != assigned.end()) {
+                                idempotent = false;
+                                break;
+                            }
+                        }
+                        if (!idempotent) {
+                            continue;
+                        }
+
                         // Check if all branches end with same assignment
                         bool all_branches_same = true;
                         for (size_t j = 1; j < if_else_stmt->size(); j++) {
-- 
2.43.0


From 1914d36b835092c71e6948322554a3ff6ff39e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:53 +0000
Subject: [PATCH 27/31] fix: WhileToForConversion requires an update that is
 executed in every iteration

---
 .../structured_control_flow/while_to_for_conversion.cpp      | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sdfg/src/passes/structured_control_flow/while_to_for_conversion.cpp b/sdfg/src/passes/structured_control_flow/while_to_for_conversion.cpp
index aac54dd..dd8e424 100644
--- a/sdfg/src/passes/structured_control_flow/while_to_for_conversion.cpp
+++ b/sdfg/src/passes/structured_control_flow/while_to_for_conversion.cpp
@@ -101,7 +101,10 @@ bool WhileToForConversion::can_be_applied(
     }
     auto indvar = symbolic::symbol(update_write->container());
     auto update_element = dynamic_cast<structured_control_flow::Transition*>(update_write->element());
-    ;
+    // The update must be executed exactly once per iteration
+    if (body.index(*update_element) < 0) {
+        return false;
+    }
     auto update = update_element->assignments().at(indvar);
 
     std::unordered_set<std::string> update_symbols;
-- 
2.43.0


From 7ca25747d69e34df3d19789f55325964e99cfe06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:17 +0000
Subject: [PATCH 28/31] fix: OutLocalStorage indexes its local array from the
 first iteration and requires invariant ascending bounds

---
 .../src/transformations/out_local_storage.cpp | 26 ++++++++++++++-----
 sdfg/src/transformations/utils.cpp            |  6 -----
 2 files changed, 20 insertions(+), 12 deletions(-)

diff --git a/sdfg/src/transformations/out_local_storage.cpp b/sdfg/src/transformations/out_local_storage.cpp
index 3df8f24..3a9e1a7 100644
--- a/sdfg/src/transformations/out_local_storage.cpp
+++ b/sdfg/src/transformations/out_local_storage.cpp
@@ -100,9 +100,20 @@ bool OutLocalStorage::can_be_applied(builder::StructuredSDFGBuilder& builder, an
     // required
     if (this->requires_array_) {
         auto iteration_count = get_iteration_count(this->loop_);
-        if (iteration_count == SymEngine::null) {
+        if (iteration_count == SymEngine::null || !symbolic::is_true(symbolic::Ge(iteration_count, symbolic::zero()))) {
             return false;
         }
+
+        // Criterion: The copies iterate over the same range as the loop
+        auto bound_symbols = symbolic::atoms(this->loop_.init());
+        for (auto& atom : symbolic::atoms(this->loop_.condition())) {
+            bound_symbols.insert(atom);
+        }
+        for (auto& atom : bound_symbols) {
+            if (!symbolic::eq(atom, this->loop_.indvar()) && written_containers.contains(atom)) {
+                return false;
+            }
+        }
     }
 
     return true;
@@ -156,6 +167,9 @@ void OutLocalStorage::apply_array(builder::StructuredSDFGBuilder& builder, analy
     auto init = loop_.init();
     auto update = symbolic::subs(loop_.update(), loop_.indvar(), indvar);
     auto condition = symbolic::subs(loop_.condition(), loop_.indvar(), indvar);
+    // The local array starts with the element of the first iteration
+    auto local_index = symbolic::sub(loop_.indvar(), init);
+    auto local_copy_index = symbolic::sub(indvar, init);
 
     analysis::UsersView body_users(users, loop_.root());
     auto accesses = body_users.uses(this->container_);
@@ -170,7 +184,7 @@ void OutLocalStorage::apply_array(builder::StructuredSDFGBuilder& builder, analy
     auto& init_memlet_in =
         builder.add_computational_memlet(init_block, init_access_read, init_tasklet, "_in", first_subset, *type);
     init_memlet_in.replace(loop_.indvar(), indvar);
-    builder.add_computational_memlet(init_block, init_tasklet, "_out", init_access_write, {indvar}, array_type);
+    builder.add_computational_memlet(init_block, init_tasklet, "_out", init_access_write, {local_copy_index}, array_type);
 
     auto& reset_loop = builder.add_for_after(*parent, loop_, indvar, condition, init, update, {}, loop_.debug_info());
     auto& reset_body = reset_loop.root();
@@ -178,7 +192,7 @@ void OutLocalStorage::apply_array(builder::StructuredSDFGBuilder& builder, analy
     auto& reset_access_read = builder.add_access(reset_block, replacement_name);
     auto& reset_access_write = builder.add_access(reset_block, this->container_);
     auto& reset_tasklet = builder.add_tasklet(reset_block, data_flow::TaskletCode::assign, "_out", {"_in"});
-    builder.add_computational_memlet(reset_block, reset_access_read, reset_tasklet, "_in", {indvar}, array_type);
+    builder.add_computational_memlet(reset_block, reset_access_read, reset_tasklet, "_in", {local_copy_index}, array_type);
     auto& reset_memlet_out =
         builder.add_computational_memlet(reset_block, reset_tasklet, "_out", reset_access_write, first_subset, *type);
     reset_memlet_out.replace(loop_.indvar(), indvar);
@@ -188,7 +202,7 @@ void OutLocalStorage::apply_array(builder::StructuredSDFGBuilder& builder, analy
         if (auto memlet = dynamic_cast<data_flow::Memlet*>(element)) {
             auto subset = memlet->subset();
             subset.clear();
-            subset.push_back(this->loop_.indvar());
+            subset.push_back(local_index);
             memlet->set_subset(subset);
         }
     }
@@ -200,7 +214,7 @@ void OutLocalStorage::apply_array(builder::StructuredSDFGBuilder& builder, analy
                 auto memlet = &iedge;
                 auto subset = memlet->subset();
                 subset.clear();
-                subset.push_back(this->loop_.indvar());
+                subset.push_back(local_index);
                 memlet->set_subset(subset);
                 memlet->set_base_type(array_type);
             }
@@ -208,7 +222,7 @@ void OutLocalStorage::apply_array(builder::StructuredSDFGBuilder& builder, analy
                 auto memlet = &oedge;
                 auto subset = memlet->subset();
                 subset.clear();
-                subset.push_back(this->loop_.indvar());
+                subset.push_back(local_index);
                 memlet->set_subset(subset);
                 memlet->set_base_type(array_type);
             }
diff --git a/sdfg/src/transformations/utils.cpp b/sdfg/src/transformations/utils.cpp
index 2f3787b..7ab746a 100644
--- a/sdfg/src/transformations/utils.cpp
+++ b/sdfg/src/transformations/utils.cpp
@@ -19,9 +19,6 @@ symbolic::Integer sdfg::get_iteration_count(sdfg::structured_control_flow::Struc
             auto stl = SymEngine::rcp_static_cast<const SymEngine::StrictLessThan>(*it);
             auto lhs = stl->get_args()[0];
             auto rhs = stl->get_args()[1];
-            if (!symbolic::eq(lhs, loop.indvar())) {
-                std::swap(lhs, rhs);
-            }
             if (!symbolic::eq(lhs, loop.indvar())) {
                 continue;
             }
@@ -35,9 +32,6 @@ symbolic::Integer sdfg::get_iteration_count(sdfg::structured_control_flow::Struc
         auto stl = SymEngine::rcp_static_cast<const SymEngine::StrictLessThan>(condition);
         auto lhs = stl->get_args()[0];
         auto rhs = stl->get_args()[1];
-        if (!symbolic::eq(lhs, loop.indvar())) {
-            std::swap(lhs, rhs);
-        }
         if (!symbolic::eq(lhs, loop.indvar())) {
             return SymEngine::null;
         }
-- 
2.43.0


From 31aaa976df164167b1a9d5c706b572becc6b8078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:04 +0000
Subject: [PATCH 29/31] fix: print ordered floating-point comparisons so that
 NaN operands compare as unordered

---
 .../src/codegen/language_extensions/c_language_extension.cpp | 5 +++--
 .../codegen/language_extensions/cpp_language_extension.cpp   | 5 +++--
 .../codegen/language_extensions/cuda_language_extension.cpp  | 5 +++--
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/sdfg/src/codegen/language_extensions/c_language_extension.cpp b/sdfg/src/codegen/language_extensions/c_language_extension.cpp
index 8cdda02..1e8d00b 100644
--- a/sdfg/src/codegen/language_extensions/c_language_extension.cpp
+++ b/sdfg/src/codegen/language_extensions/c_language_extension.cpp
@@ -212,7 +212,8 @@ std::string CLanguageExtension::tasklet(const data_flow::Tasklet& tasklet) {
         case data_flow::TaskletCode::fp_oeq:
             return tasklet.inputs().at(0) + " == " + tasklet.inputs().at(1);
         case data_flow::TaskletCode::fp_one:
-            return tasklet.inputs().at(0) + " != " + tasklet.inputs().at(1);
+            return tasklet.inputs().at(0) + " < " + tasklet.inputs().at(1) + " || " + tasklet.inputs().at(0) + " > " +
+                   tasklet.inputs().at(1);
         case data_flow::TaskletCode::fp_ogt:
             return tasklet.inputs().at(0) + " > " + tasklet.inputs().at(1);
         case data_flow::TaskletCode::fp_oge:
@@ -222,7 +223,7 @@ std::string CLanguageExtension::tasklet(const data_flow::Tasklet& tasklet) {
         case data_flow::TaskletCode::fp_ole:
             return tasklet.inputs().at(0) + " <= " + tasklet.inputs().at(1);
         case data_flow::TaskletCode::fp_ord:
-            return "isnan(" + tasklet.inputs().at(0) + ") && isnan(" + tasklet.inputs().at(1) + ")";
+            return "!isnan(" + tasklet.inputs().at(0) + ") && !isnan(" + tasklet.inputs().at(1) + ")";
         case data_flow::TaskletCode::fp_ueq:
             return "isnan(" + tasklet.inputs().at(0) + ") || isnan(" + tasklet.inputs().at(1) + ")" + " || " +
                    tasklet.inputs().at(0) + " == " + tasklet.inputs().at(1);
diff --git a/sdfg/src/codegen/language_extensions/cpp_language_extension.cpp b/sdfg/src/codegen/language_extensions/cpp_language_extension.cpp
index f59377a..07b5951 100644
--- a/sdfg/src/codegen/language_extensions/cpp_language_extension.cpp
+++ b/sdfg/src/codegen/language_extensions/cpp_language_extension.cpp
@@ -206,7 +206,8 @@ std::string CPPLanguageExtension::tasklet(const data_flow::Tasklet& tasklet) {
         case data_flow::TaskletCode::fp_oeq:
             return tasklet.inputs().at(0) + " == " + tasklet.inputs().at(1);
         case data_flow::TaskletCode::fp_one:
-            return tasklet.inputs().at(0) + " != " + tasklet.inputs().at(1);
+            return tasklet.inputs().at(0) + " < " + tasklet.inputs().at(1) + " || " + tasklet.inputs().at(0) + " > " +
+                   tasklet.inputs().at(1);
         case data_flow::TaskletCode::fp_ogt:
             return tasklet.inputs().at(0) + " > " + tasklet.inputs().at(1);
         case data_flow::TaskletCode::fp_oge:
@@ -216,7 +217,7 @@ std::string CPPLanguageExtension::tasklet(const data_flow::Tasklet& tasklet) {
         case data_flow::TaskletCode::fp_ole:
             return tasklet.inputs().at(0) + " <= " + tasklet.inputs().at(1);
         case data_flow::TaskletCode::fp_ord:
-            return "std::isnan(" + tasklet.inputs().at(0) + ") && std::isnan(" + tasklet.inputs().at(1) + ")";
+            return "!std::isnan(" + tasklet.inputs().at(0) + ") && !std::isnan(" + tasklet.inputs().at(1) + ")";
         case data_flow::TaskletCode::fp_ueq:
             return "std::isnan(" + tasklet.inputs().at(0) + ") || std::isnan(" + tasklet.inputs().at(1) + ")" + " || " +
                    tasklet.inputs().at(0) + " == " + tasklet.inputs().at(1);
diff --git a/sdfg/src/codegen/language_extensions/cuda_language_extension.cpp b/sdfg/src/codegen/language_extensions/cuda_language_extension.cpp
index 9c3d3c5..9e0b2d4 100644
--- a/sdfg/src/codegen/language_extensions/cuda_language_extension.cpp
+++ b/sdfg/src/codegen/language_extensions/cuda_language_extension.cpp
@@ -222,7 +222,8 @@ std::string CUDALanguageExtension::tasklet(const data_flow::Tasklet& tasklet) {
         case data_flow::TaskletCode::fp_oeq:
             return tasklet.inputs().at(0) + " == " + tasklet.inputs().at(1);
         case data_flow::TaskletCode::fp_one:
-            return tasklet.inputs().at(0) + " != " + tasklet.inputs().at(1);
+            return tasklet.inputs().at(0) + " < " + tasklet.inputs().at(1) + " || " + tasklet.inputs().at(0) + " > " +
+                   tasklet.inputs().at(1);
         case data_flow::TaskletCode::fp_ogt:
             return tasklet.inputs().at(0) + " > " + tasklet.inputs().at(1);
         case data_flow::TaskletCode::fp_oge:
@@ -232,7 +233,7 @@ std::string CUDALanguageExtension::tasklet(const data_flow::Tasklet& tasklet) {
         case data_flow::TaskletCode::fp_ole:
             return tasklet.inputs().at(0) + " <= " + tasklet.inputs().at(1);
         case data_flow::TaskletCode::fp_ord:
-            return "std::isnan(" + tasklet.inputs().at(0) + ") && std::isnan(" + tasklet.inputs().at(1) + ")";
+            return "!std::isnan(" + tasklet.inputs().at(0) + ") && !std::isnan(" + tasklet.inputs().at(1) + ")";
         case data_flow::TaskletCode::fp_ueq:
             return "std::isnan(" + tasklet.inputs().at(0) + ") || std::isnan(" + tasklet.inputs().at(1) + ")" + " || " +
                    tasklet.inputs().at(0) + " == " + tasklet.inputs().at(1);
-- 
2.43.0


From 0894f7b5897a271b8a273c6dd4083b48fe29eb0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:04 +0000
Subject: [PATCH 30/31] fix: zero-extend from 32 bits when printing zext_i64

---
 sdfg/src/codegen/language_extensions/c_language_extension.cpp   | 2 +-
 sdfg/src/codegen/language_extensions/cpp_language_extension.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sdfg/src/codegen/language_extensions/c_language_extension.cpp b/sdfg/src/codegen/language_extensions/c_language_extension.cpp
index 1e8d00b..a4297fe 100644
--- a/sdfg/src/codegen/language_extensions/c_language_extension.cpp
+++ b/sdfg/src/codegen/language_extensions/c_language_extension.cpp
@@ -480,7 +480,7 @@ void CSymbolicPrinter::bvisit(const SymEngine::FunctionSymbol& x) {
         str_ = "((" + apply(x.get_args()[0]) + ") < 0 ? -(" + apply(x.get_args()[0]) + ") : (" +
                apply(x.get_args()[0]) + "))";
     } else if (x.get_name() == "zext_i64") {
-        str_ = "((long long) ((unsigned long long) (" + apply(x.get_args()[0]) + ")))";
+        str_ = "((long long) ((unsigned int) (" + apply(x.get_args()[0]) + ")))";
     } else if (x.get_name() == "trunc_i32") {
         str_ = "((int) ((unsigned int) ((unsigned long long) (" + apply(x.get_args()[0]) + "))))";
     } else if (x.get_name() == "sizeof") {
diff --git a/sdfg/src/codegen/language_extensions/cpp_language_extension.cpp b/sdfg/src/codegen/language_extensions/cpp_language_extension.cpp
index 07b5951..0f7e54e 100644
--- a/sdfg/src/codegen/language_extensions/cpp_language_extension.cpp
+++ b/sdfg/src/codegen/language_extensions/cpp_language_extension.cpp
@@ -465,7 +465,7 @@ void CPPSymbolicPrinter::bvisit(const SymEngine::FunctionSymbol& x) {
         str_ = "((" + apply(x.get_args()[0]) + ") < 0 ? -(" + apply(x.get_args()[0]) + ") : (" +
                apply(x.get_args()[0]) + "))";
     } else if (x.get_name() == "zext_i64") {
-        str_ = "((long long) ((unsigned long long) (" + apply(x.get_args()[0]) + ")))";
+        str_ = "((long long) ((unsigned int) (" + apply(x.get_args()[0]) + ")))";
     } else if (x.get_name() == "trunc_i32") {
         str_ = "((int) ((unsigned int) ((unsigned long long) (" + apply(x.get_args()[0]) + "))))";
     } else if (x.get_name() == "sizeof") {
-- 
2.43.0


From fbfc32afc5d9a3c356243eb1dee27aceadaa7fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:07 +0000
Subject: [PATCH 31/31] fix: copy the schedule category when a schedule type is
 assigned

---
 sdfg/include/sdfg/structured_control_flow/map.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sdfg/include/sdfg/structured_control_flow/map.h b/sdfg/include/sdfg/structured_control_flow/map.h
index 8771006..fb3652c 100644
--- a/sdfg/include/sdfg/structured_control_flow/map.h
+++ b/sdfg/include/sdfg/structured_control_flow/map.h
@@ -70,6 +70,7 @@ public:
 
     void operator=(const ScheduleType& rhs) {
         value_ = rhs.value_;
+        category_ = rhs.category_;
         properties_.clear();
         for (const auto& entry : rhs.properties_) {
             properties_.insert(entry);
-- 
2.43.0

