From 155b90baaeb269d89be299d6c3598e128d827729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:20 +0000
Subject: [PATCH 1/4] fix: destroying one of several same-named nodes dropped
 the endpoints of the others

GraphCache::remove_node() erased the first matching node while endpoints are
always associated with the first matching node, so the surviving nodes lost
all their endpoints, locally and in every announcement.
---
 rmw_dds_common/src/graph_cache.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/rmw_dds_common/src/graph_cache.cpp b/rmw_dds_common/src/graph_cache.cpp
index 52f6b20..4f3a630 100644
--- a/rmw_dds_common/src/graph_cache.cpp
+++ b/rmw_dds_common/src/graph_cache.cpp
@@ -296,17 +296,18 @@ GraphCache::remove_node(
   auto it = participants_.find(participant_gid);
   assert(it != participants_.end());
 
-  // remove first element found
+  // Remove the last element found: if there are several nodes with the same name, their endpoints
+  // are all associated with the first one, which must stay as long as any of them does.
   auto to_remove = std::find_if(
-    it->second.node_entities_info_seq.begin(),
-    it->second.node_entities_info_seq.end(),
+    it->second.node_entities_info_seq.rbegin(),
+    it->second.node_entities_info_seq.rend(),
     [&node_name, &node_namespace](const rmw_dds_common::msg::NodeEntitiesInfo & node_info) {
       return node_info.node_name == node_name && node_info.node_namespace == node_namespace;
     });
 
-  assert(to_remove != it->second.node_entities_info_seq.end());
+  assert(to_remove != it->second.node_entities_info_seq.rend());
 
-  it->second.node_entities_info_seq.erase(to_remove);
+  it->second.node_entities_info_seq.erase(std::next(to_remove).base());
   GRAPH_CACHE_CALL_ON_CHANGE_CALLBACK(this);
 
   return __create_participant_info_message(participant_gid, it->second.node_entities_info_seq);
-- 
2.43.0


From 17857c8ce16e04181b2fe225e4576ccb3a2439db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:20 +0000
Subject: [PATCH 2/4] fix: get_security_files() threw instead of failing when a
 file could not be examined

std::filesystem::is_regular_file(path) throws for every error other than the
file not existing (no permission, symlink loop, name too long, I/O error), so
callers got an exception, and partially filled results, instead of false.
---
 rmw_dds_common/src/security.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/rmw_dds_common/src/security.cpp b/rmw_dds_common/src/security.cpp
index c480d1a..002d143 100644
--- a/rmw_dds_common/src/security.cpp
+++ b/rmw_dds_common/src/security.cpp
@@ -16,6 +16,7 @@
 #include <fstream>
 #include <functional>
 #include <string>
+#include <system_error>
 #include <utility>
 #include <unordered_map>
 #include <vector>
@@ -32,7 +33,9 @@ static bool process_file_uri_security_file(
   const std::filesystem::path & full_path,
   std::string & result)
 {
-  if (!std::filesystem::is_regular_file(full_path)) {
+  // Any error looking at the file is treated as the file not being there
+  std::error_code ec;
+  if (!std::filesystem::is_regular_file(full_path, ec)) {
     return false;
   }
   result = prefix + full_path.generic_string();
@@ -139,7 +142,8 @@ bool get_security_files(
   for (const std::pair<const std::string, std::string> & el : optional_files) {
     std::filesystem::path full_path(secure_root);
     full_path /= el.second;
-    if (std::filesystem::is_regular_file(full_path)) {
+    std::error_code ec;
+    if (std::filesystem::is_regular_file(full_path, ec)) {
       result[el.first] = prefix + full_path.generic_string();
     }
   }
-- 
2.43.0


From cec6dde45f9fff691240943dadbf9f4c9ddf6da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:20 +0000
Subject: [PATCH 3/4] fix: get_security_files() kept entries of an earlier
 lookup in the result

With a reused result map, a CRL entry found by an earlier lookup was still
returned although the enclave looked up now has none.
---
 rmw_dds_common/src/security.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rmw_dds_common/src/security.cpp b/rmw_dds_common/src/security.cpp
index 002d143..40c6fd4 100644
--- a/rmw_dds_common/src/security.cpp
+++ b/rmw_dds_common/src/security.cpp
@@ -119,6 +119,9 @@ bool get_security_files(
     {"CRL", "crl.pem"},
   };
 
+  // Entries of an earlier lookup must not be mixed with the ones of this one
+  result.clear();
+
   for (const std::pair<const std::string,
     std::vector<std::pair<std::string, security_file_processor>>> & el : required_files)
   {
-- 
2.43.0


From 18fadcc64a6bd156c27ed7cb416b82c820df02fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:37 +0000
Subject: [PATCH 4/4] fix: get_security_files() could hang on a PKCS#11 entry
 that is not a regular file

Opening a named pipe for reading blocks until somebody opens it for writing.
---
 rmw_dds_common/src/security.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rmw_dds_common/src/security.cpp b/rmw_dds_common/src/security.cpp
index 40c6fd4..eebc9c9 100644
--- a/rmw_dds_common/src/security.cpp
+++ b/rmw_dds_common/src/security.cpp
@@ -55,6 +55,12 @@ static bool process_pkcs_uri_security_file(
 
   const std::string p11_prefix("pkcs11:");
 
+  // Opening anything else, like a pipe, may block forever
+  std::error_code ec;
+  if (!std::filesystem::is_regular_file(full_path, ec)) {
+    return false;
+  }
+
   std::ifstream ifs(full_path);
   if (!ifs.is_open()) {
     return false;
-- 
2.43.0

