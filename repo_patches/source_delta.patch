From 879eb2ee6c45df261cfc176b2ac0a672177a5ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:22 +0000
Subject: [PATCH 01/28] fix: report an error when a directory has no entry file

`resolve_as_dir` returned `Resolving` when neither the main fields nor the
main files led to a file. `_resolve` hit `unreachable!()` on it, and
`resolve_as_modules` went on to the parent directory with an empty target.
---
 src/resolve.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/resolve.rs b/src/resolve.rs
index f33572a..f88833f 100644
--- a/src/resolve.rs
+++ b/src/resolve.rs
@@ -39,6 +39,8 @@ impl Resolver {
         MainFieldPlugin::new(&pkg_info_wrap)
             .apply(self, info)
             .and_then(|info| MainFilePlugin::new(&pkg_info_wrap).apply(self, info))
+            // none of main fields and main files pointed to a file.
+            .and_then(|info| ResolverStats::Error((Resolver::raise_tag(), info)))
     }
 
     #[tracing::instrument]
-- 
2.43.0


From d8e13490ca47fc223a23112123948c71659b6a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:22 +0000
Subject: [PATCH 02/28] fix: find the module name by byte offset
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The character position of the slash was used as a byte offset, so a request
like "é/foo" panicked.
---
 src/resolve.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/resolve.rs b/src/resolve.rs
index f88833f..f2f75c8 100644
--- a/src/resolve.rs
+++ b/src/resolve.rs
@@ -52,8 +52,7 @@ impl Resolver {
             // join request part
             let has_namespace_scope = target.starts_with('@');
             let slash_index_list: Vec<usize> = target
-                .chars()
-                .enumerate()
+                .char_indices()
                 .filter(|(_, char)| '/'.eq(char))
                 .map(|(index, _)| index)
                 .collect();
-- 
2.43.0


From 34db6ccb7366cd85e2424f19e00094a781d38c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:23 +0000
Subject: [PATCH 03/28] fix: try every main field and main file from the same
 directory

A failed candidate left its own path in the info that the next candidate
started from, e.g. `{"module": "./esm", "main": "./main.js"}` with a
directory `esm` looked for `./esm/main.js`.
---
 src/lib.rs               | 8 --------
 src/plugin/main_field.rs | 8 +++-----
 src/plugin/main_file.rs  | 6 ++----
 3 files changed, 5 insertions(+), 17 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 0dcfb57..75f2c56 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -144,14 +144,6 @@ impl ResolverStats {
     pub fn is_success(&self) -> bool {
         matches!(self, ResolverStats::Success(_))
     }
-
-    pub fn extract_info(self) -> ResolveInfo {
-        match self {
-            ResolverStats::Resolving(info) => info,
-            ResolverStats::Error((_, info)) => info,
-            _ => unreachable!(),
-        }
-    }
 }
 
 pub(crate) static MODULE: &str = "node_modules";
diff --git a/src/plugin/main_field.rs b/src/plugin/main_field.rs
index a68c6a7..fdda9bd 100644
--- a/src/plugin/main_field.rs
+++ b/src/plugin/main_field.rs
@@ -21,8 +21,6 @@ impl<'a> Plugin for MainFieldPlugin<'a> {
                 return ResolverStats::Resolving(info);
             }
 
-            let mut main_field_info = ResolveInfo::from(info.path.to_owned(), info.request.clone());
-
             for user_main_field in &resolver.options.main_fields {
                 if let Some(main_field) = pkg_info
                     .raw
@@ -34,7 +32,9 @@ impl<'a> Plugin for MainFieldPlugin<'a> {
                         break;
                     }
 
-                    main_field_info = if main_field.starts_with("./") {
+                    let main_field_info =
+                        ResolveInfo::from(info.path.to_owned(), info.request.clone());
+                    let main_field_info = if main_field.starts_with("./") {
                         main_field_info.with_target(main_field)
                     } else {
                         main_field_info.with_target(&format!("./{main_field}"))
@@ -47,8 +47,6 @@ impl<'a> Plugin for MainFieldPlugin<'a> {
 
                     if stats.is_success() {
                         return stats;
-                    } else {
-                        main_field_info = stats.extract_info();
                     }
                 }
             }
diff --git a/src/plugin/main_file.rs b/src/plugin/main_file.rs
index 85a0789..8c27b98 100644
--- a/src/plugin/main_file.rs
+++ b/src/plugin/main_file.rs
@@ -18,9 +18,9 @@ impl<'a> MainFilePlugin<'a> {
 
 impl<'a> Plugin for MainFilePlugin<'a> {
     fn apply(&self, resolver: &Resolver, info: ResolveInfo) -> ResolverStats {
-        let mut main_file_info = ResolveInfo::from(info.path.to_owned(), info.request.clone());
         for main_file in &resolver.options.main_files {
-            main_file_info = main_file_info.with_target(&format!("./{main_file}"));
+            let main_file_info = ResolveInfo::from(info.path.to_owned(), info.request.clone())
+                .with_target(&format!("./{main_file}"));
             let stats = ExportsFieldPlugin::new(self.pkg_info)
                 .apply(resolver, main_file_info)
                 .and_then(|info| ImportsFieldPlugin::new(self.pkg_info).apply(resolver, info))
@@ -28,8 +28,6 @@ impl<'a> Plugin for MainFilePlugin<'a> {
                 .and_then(|info| resolver.resolve_as_file(info));
             if stats.is_success() {
                 return stats;
-            } else {
-                main_file_info = stats.extract_info();
             }
         }
         ResolverStats::Resolving(info)
-- 
2.43.0


From 82360b8fab296856856f7ca16f2aa322de0a8cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:23 +0000
Subject: [PATCH 04/28] fix: keep the imports tree in its own cache

The tree of an `imports` field was stored as if it belonged to an `exports`
field with the same content.
---
 src/description.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/description.rs b/src/description.rs
index 416468d..2161d1e 100644
--- a/src/description.rs
+++ b/src/description.rs
@@ -90,7 +90,7 @@ impl Resolver {
                 Some(tree.clone())
             } else {
                 let tree = Arc::new(ImportsField::build_field_path_tree(value)?);
-                self.cache.exports_content_to_tree.insert(key, tree.clone());
+                self.cache.imports_content_to_tree.insert(key, tree.clone());
                 Some(tree)
             }
         } else {
-- 
2.43.0


From 58fd0289bec8c775caae4b499d8a2d1038c68911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:00 +0000
Subject: [PATCH 05/28] fix: compare tsconfig path patterns on character
 boundaries

Slicing the request at the byte length of the pattern's prefix panicked when
that was inside of a multi-byte character.
---
 src/tsconfig_path.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tsconfig_path.rs b/src/tsconfig_path.rs
index 7a43b55..c062299 100644
--- a/src/tsconfig_path.rs
+++ b/src/tsconfig_path.rs
@@ -58,10 +58,10 @@ impl Resolver {
         pattern.find(|c| c == '*').and_then(|star_index| {
             let part1 = &pattern[..star_index];
             let part2 = &pattern[star_index + 1..];
-            if &search[0..star_index] != part1 {
+            if !search.starts_with(part1) {
                 return None;
             }
-            if &search[search.len() - part2.len()..] != part2 {
+            if !search.ends_with(part2) {
                 return None;
             }
             let len = search.len() - part2.len() - part1.len();
-- 
2.43.0


From 72cc2414626dd44748733b8c13b3c2627ddee196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:00 +0000
Subject: [PATCH 06/28] fix: do not panic on a scope without a package name

A request "@scope" panicked if `node_modules/@scope` had an exports field.
---
 src/plugin/exports_field.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/plugin/exports_field.rs b/src/plugin/exports_field.rs
index f7d1214..cafb875 100644
--- a/src/plugin/exports_field.rs
+++ b/src/plugin/exports_field.rs
@@ -46,11 +46,9 @@ impl<'a> Plugin for ExportsFieldPlugin<'a> {
             let list = if let Some(root) = &pkg_info.exports_field_tree {
                 let query = &info.request.query;
                 let fragment = &info.request.fragment;
-                let chars: String = if target.starts_with('@') {
-                    let index = target.find('/').unwrap();
-                    &target[index + 1..]
-                } else {
-                    target
+                let chars: String = match target.find('/') {
+                    Some(index) if target.starts_with('@') => &target[index + 1..],
+                    _ => target,
                 }
                 .chars()
                 .collect();
-- 
2.43.0


From 8d6c413021bb6eef7d537b69ded63512b39a98c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:01 +0000
Subject: [PATCH 07/28] fix: do not panic on unexpected values in exports and
 imports

`null`, booleans, numbers and nested arrays hit `unreachable!()` or `panic!`.
`null` means that the key is excluded, the others are reported as errors.
---
 src/description.rs |  4 ++--
 src/map.rs         | 15 ++++++++++++---
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/description.rs b/src/description.rs
index 2161d1e..9b76682 100644
--- a/src/description.rs
+++ b/src/description.rs
@@ -67,7 +67,7 @@ impl Resolver {
             }
         }
 
-        let exports_field_tree = if let Some(value) = json.get("exports") {
+        let exports_field_tree = if let Some(value) = json.get("exports").filter(|v| !v.is_null()) {
             let key = serde_json::to_string(&value).unwrap_or_else(|_| {
                 panic!("Parse {}/exports to hash key failed", file_path.display())
             });
@@ -82,7 +82,7 @@ impl Resolver {
             None
         };
 
-        let imports_field_tree = if let Some(value) = json.get("imports") {
+        let imports_field_tree = if let Some(value) = json.get("imports").filter(|v| !v.is_null()) {
             let key = serde_json::to_string(&value).unwrap_or_else(|_| {
                 panic!("Parse {}/imports to hash key failed", file_path.display())
             });
diff --git a/src/map.rs b/src/map.rs
index 8122f31..af848c4 100644
--- a/src/map.rs
+++ b/src/map.rs
@@ -114,12 +114,19 @@ pub trait Field {
             serde_json::Value::Array(arr) => {
                 let mut temp: ArrayMapping = vec![];
                 for item in arr {
+                    if item.is_null() {
+                        continue;
+                    }
                     match Self::from_json(item)? {
                         MappingValue::Direct(direct) => temp.push(AvailableMapping::Direct(direct)),
                         MappingValue::Conditional(conditional) => {
                             temp.push(AvailableMapping::Conditional(conditional))
                         }
-                        _ => panic!("Array mapping is not allowed nested in exports field"),
+                        _ => {
+                            return Err(
+                                "Array mapping is not allowed nested in exports field".to_string()
+                            )
+                        }
                     }
                 }
                 MappingValue::Array(temp)
@@ -131,7 +138,9 @@ pub trait Field {
                 }
                 MappingValue::Conditional(map)
             }
-            _ => unreachable!(),
+            // `null` excludes the key, there is no target.
+            serde_json::Value::Null => MappingValue::Array(vec![]),
+            _ => return Err(format!("Unexpected mapping value {json_value}")),
         };
         Ok(result)
     }
@@ -362,7 +371,7 @@ impl Field for ImportsField {
     fn build_field_path_tree(imports_field_value: &serde_json::Value) -> RResult<PathTreeNode> {
         let field = match Self::from_json(imports_field_value)? {
             MappingValue::Conditional(field) => field,
-            _ => unreachable!(),
+            _ => return Err("Imports field should be an object".to_string()),
         };
         let mut root = PathTreeNode::default();
         for (key, value) in field {
-- 
2.43.0


From f6a66cf63d4bad31262cb6fe74bd54da0a49cd12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:02 +0000
Subject: [PATCH 08/28] fix: do not panic on `true` in the browser field

---
 src/description.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/description.rs b/src/description.rs
index 9b76682..439dd85 100644
--- a/src/description.rs
+++ b/src/description.rs
@@ -58,8 +58,9 @@ impl Resolver {
             if let Some(map) = value.as_object() {
                 for (key, value) in map {
                     if let Some(b) = value.as_bool() {
-                        assert!(!b);
-                        alias_fields.insert(key.to_string(), AliasMap::Ignored);
+                        if !b {
+                            alias_fields.insert(key.to_string(), AliasMap::Ignored);
+                        }
                     } else if let Some(s) = value.as_str() {
                         alias_fields.insert(key.to_string(), AliasMap::Target(s.to_string()));
                     }
-- 
2.43.0


From 72e3a6eceb571df71bbd3f3701fcf5cb97d0991d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:02 +0000
Subject: [PATCH 09/28] fix: do not panic on unexpected values in tsconfig

An empty file and values of `paths` and `baseUrl` with another type than
expected panicked.
---
 src/tsconfig.rs | 44 +++++++++++++++++++++++++++-----------------
 1 file changed, 27 insertions(+), 17 deletions(-)

diff --git a/src/tsconfig.rs b/src/tsconfig.rs
index 04901bf..6aab14c 100644
--- a/src/tsconfig.rs
+++ b/src/tsconfig.rs
@@ -20,28 +20,34 @@ pub struct CompilerOptions {
 impl TsConfig {
     pub fn parse_file(location: &Path, resolver: &Resolver) -> RResult<TsConfig> {
         let json = parse_file_to_value(location, resolver)?;
-        let compiler_options = json.get("compilerOptions").map(|options| {
+        let compiler_options = if let Some(options) = json.get("compilerOptions") {
             // TODO: should optimized
             let base_url = options
                 .get("baseUrl")
-                .map(|v| v.as_str().unwrap().to_string());
-            let paths = options.get("paths").map(|v| {
+                .and_then(|v| v.as_str())
+                .map(|s| s.to_string());
+            let paths = if let Some(v) = options.get("paths") {
                 let mut map = HashMap::new();
                 // TODO: should optimized
-                for (key, obj) in v.as_object().unwrap() {
-                    map.insert(
-                        key.to_string(),
-                        obj.as_array()
-                            .unwrap()
-                            .iter()
-                            .map(|v| v.as_str().unwrap().to_string())
-                            .collect(),
-                    );
+                for (key, obj) in v.as_object().ok_or_else(|| unexpected_paths(location))? {
+                    let mut list = vec![];
+                    for item in obj.as_array().ok_or_else(|| unexpected_paths(location))? {
+                        list.push(
+                            item.as_str()
+                                .ok_or_else(|| unexpected_paths(location))?
+                                .to_string(),
+                        );
+                    }
+                    map.insert(key.to_string(), list);
                 }
-                map
-            });
-            CompilerOptions { base_url, paths }
-        });
+                Some(map)
+            } else {
+                None
+            };
+            Some(CompilerOptions { base_url, paths })
+        } else {
+            None
+        };
         let extends: Option<String> = json.get("extends").map(|v| v.to_string());
         Ok(TsConfig {
             extends,
@@ -50,12 +56,16 @@ impl TsConfig {
     }
 }
 
+fn unexpected_paths(location: &Path) -> String {
+    format!("Unexpected paths in {}", location.display())
+}
+
 fn parse_file_to_value(location: &Path, resolver: &Resolver) -> RResult<serde_json::Value> {
     let json_str =
         read_to_string(location).map_err(|_| format!("Open {} failed", location.display()))?;
     let mut json: serde_json::Value = jsonc_parser::parse_to_serde_value(&json_str)
         .map_err(|err| format!("Parse {} failed. Error: {err}", location.display()))?
-        .unwrap_or_else(|| panic!("Transfer {} to serde value failed", location.display()));
+        .ok_or_else(|| format!("Transfer {} to serde value failed", location.display()))?;
 
     // merge `extends`.
     if let serde_json::Value::String(s) = &json["extends"] {
-- 
2.43.0


From f63e5747e0fe77a01ebb48a73ed3dc4363b460ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:09 +0000
Subject: [PATCH 10/28] fix: do not let a target leave the directory of its
 package

Empty segments were counted as directories, so the target ".//../../a.js"
escaped, and a last segment ".." was not counted at all. On the other hand,
directories whose name starts with a dot were not counted or taken for "..".
An absolute path is not relative to the package either.
---
 src/map.rs | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/map.rs b/src/map.rs
index af848c4..cd064fd 100644
--- a/src/map.rs
+++ b/src/map.rs
@@ -81,23 +81,19 @@ pub struct PathTreeNode {
 ///  `build_field_path_tree` and `field_process`.
 pub trait Field {
     fn check_target(relative_path: &str) -> bool {
-        let relative_path = relative_path.chars().collect::<Vec<char>>();
-        let slash_index_list = PathTreeNode::get_next_list(&relative_path, '/');
-        let mut last_non_slash_index = 0;
+        if relative_path.starts_with('/') {
+            return false;
+        }
         let mut cd = 0;
-        while let Some(&Some(slash_index)) = slash_index_list.get(last_non_slash_index) {
-            if relative_path[last_non_slash_index] == '.'
-                && relative_path[last_non_slash_index + 1] == '.'
-            {
+        for segment in relative_path.split('/') {
+            if segment == ".." {
                 cd -= 1;
                 if cd < 0 {
                     return false;
                 }
-            } else if relative_path[last_non_slash_index] == '.' {
-            } else {
+            } else if !segment.is_empty() && segment != "." {
                 cd += 1;
             }
-            last_non_slash_index = slash_index + 1;
         }
         true
     }
-- 
2.43.0


From 69e1eb5f6eae307d55fa2901e607fd2c809b0f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:10 +0000
Subject: [PATCH 11/28] fix: try the tsconfig path patterns in a fixed order

They were tried in the order of a `HashMap`, so the result changed from run
to run when a request matched more than one. As in TypeScript, an exact
pattern goes first and then the one with the longest prefix.
---
 src/tsconfig_path.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/tsconfig_path.rs b/src/tsconfig_path.rs
index c062299..01f5c67 100644
--- a/src/tsconfig_path.rs
+++ b/src/tsconfig_path.rs
@@ -3,6 +3,7 @@
 use super::tsconfig::TsConfig;
 use crate::{parse::Request, RResult, ResolveInfo, Resolver, ResolverStats};
 use std::{
+    cmp::Ordering,
     collections::HashMap,
     path::{Path, PathBuf},
 };
@@ -25,7 +26,7 @@ impl Resolver {
         absolute_base_url: &Path,
         paths: &HashMap<String, Vec<String>>,
     ) -> Vec<MappingEntry> {
-        paths
+        let mut entries: Vec<MappingEntry> = paths
             .iter()
             .map(|(key, paths)| {
                 let pattern = key.to_string();
@@ -35,7 +36,19 @@ impl Resolver {
                     .collect();
                 MappingEntry { pattern, paths }
             })
-            .collect()
+            .collect();
+        entries.sort_by(|a, b| Self::compare_pattern(&a.pattern, &b.pattern));
+        entries
+    }
+
+    /// A pattern without `*` goes first, then the one with the longest prefix.
+    fn compare_pattern(a: &str, b: &str) -> Ordering {
+        match (a.find('*'), b.find('*')) {
+            (None, Some(_)) => Ordering::Less,
+            (Some(_), None) => Ordering::Greater,
+            (Some(i), Some(j)) if i != j => j.cmp(&i),
+            _ => a.cmp(b),
+        }
     }
 
     fn parse_tsconfig(location: &Path, resolver: &Resolver) -> RResult<TsConfigInfo> {
-- 
2.43.0


From d2af54c67712df27930545b1c1c0fa8ecc90064a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:11 +0000
Subject: [PATCH 12/28] fix: try the keys of the browser field in the order of
 package.json

They were tried in the order of a `HashMap`, so the result changed from run
to run when a request matched more than one, e.g. "./a" and "./a.js".
---
 src/description.rs        | 6 +++---
 src/plugin/alias_field.rs | 5 +++--
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/description.rs b/src/description.rs
index 439dd85..0e9f7ec 100644
--- a/src/description.rs
+++ b/src/description.rs
@@ -1,6 +1,6 @@
 use crate::map::{ExportsField, Field, ImportsField, PathTreeNode};
 use crate::{AliasMap, RResult, Resolver};
-use std::collections::HashMap;
+use indexmap::IndexMap;
 use std::path::{Path, PathBuf};
 use std::sync::Arc;
 
@@ -17,7 +17,7 @@ pub struct PkgFileInfo {
     pub abs_dir_path: PathBuf,
     pub name: Option<String>,
     pub version: Option<String>,
-    pub alias_fields: HashMap<String, AliasMap>,
+    pub alias_fields: IndexMap<String, AliasMap>,
     pub exports_field_tree: Option<Arc<PathTreeNode>>,
     pub imports_field_tree: Option<Arc<PathTreeNode>>,
     pub side_effects: Option<SideEffects>,
@@ -52,7 +52,7 @@ impl Resolver {
                     .map_err(|_| format!("Parse {} failed", file_path.display()))
             })?;
 
-        let mut alias_fields = HashMap::new();
+        let mut alias_fields = IndexMap::new();
 
         if let Some(value) = json.get("browser") {
             if let Some(map) = value.as_object() {
diff --git a/src/plugin/alias_field.rs b/src/plugin/alias_field.rs
index 425049d..95a8c53 100644
--- a/src/plugin/alias_field.rs
+++ b/src/plugin/alias_field.rs
@@ -1,6 +1,7 @@
 use crate::{description::PkgFileInfo, AliasMap, Resolver};
+use indexmap::IndexMap;
+use std::path::PathBuf;
 use std::sync::Arc;
-use std::{collections::HashMap, path::PathBuf};
 
 use super::Plugin;
 use crate::{PathKind, ResolveInfo, ResolveResult, ResolverStats};
@@ -17,7 +18,7 @@ impl<'a> AliasFieldPlugin<'a> {
     pub(super) fn deal_with_alias_fields_recursive(
         &self,
         target: &AliasMap,
-        alias_fields: &HashMap<String, AliasMap>,
+        alias_fields: &IndexMap<String, AliasMap>,
     ) -> AliasMap {
         match target {
             AliasMap::Target(target) => {
-- 
2.43.0


From 30c650530bfaef3f3e89964fd69895ea2f49ef19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:11 +0000
Subject: [PATCH 13/28] fix: do not follow a cycle in the browser field forever

`{"./a": "./b", "./b": "./a"}` overflowed the stack.
---
 src/plugin/alias_field.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/plugin/alias_field.rs b/src/plugin/alias_field.rs
index 95a8c53..cb530c1 100644
--- a/src/plugin/alias_field.rs
+++ b/src/plugin/alias_field.rs
@@ -20,16 +20,18 @@ impl<'a> AliasFieldPlugin<'a> {
         target: &AliasMap,
         alias_fields: &IndexMap<String, AliasMap>,
     ) -> AliasMap {
-        match target {
-            AliasMap::Target(target) => {
-                if let Some(next) = alias_fields.get(target) {
-                    self.deal_with_alias_fields_recursive(next, alias_fields)
-                } else {
-                    AliasMap::Target(target.clone())
-                }
+        let mut target = target;
+        // a longer chain than this is a cycle.
+        for _ in 0..alias_fields.len() {
+            match target {
+                AliasMap::Target(key) => match alias_fields.get(key) {
+                    Some(next) => target = next,
+                    None => break,
+                },
+                AliasMap::Ignored => break,
             }
-            AliasMap::Ignored => AliasMap::Ignored,
         }
+        target.clone()
     }
 
     pub(super) fn request_target_is_module_and_equal_alias_key(
-- 
2.43.0


From b29d93b32ee501319581651bd75a55cf5ec7ff16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:12 +0000
Subject: [PATCH 14/28] fix: mark an exact match in a nested node as exact

The index was computed from the last part of the request, so that the rest
of the request was taken as a remainder to substitute.
---
 src/map.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/map.rs b/src/map.rs
index cd064fd..bb17dab 100644
--- a/src/map.rs
+++ b/src/map.rs
@@ -491,7 +491,7 @@ impl PathTreeNode {
             .iter()
             .collect::<String>();
             if let Some(value) = node.files.get(&remaining_request) {
-                Some((value, (remaining_request.len() + 1) as i32))
+                Some((value, (request.len() + 1) as i32))
             } else {
                 Self::apply_wildcard_mappings(
                     Self::apply_folder_mapping(last_folder_match, node, last_non_slash_index),
-- 
2.43.0


From 3e1fd74c4e1872e847f633d40a725e8e7ae95796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:12 +0000
Subject: [PATCH 15/28] fix: count the characters of a pattern key

Its length in bytes was used as an index into the characters of the request.
---
 src/map.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/map.rs b/src/map.rs
index bb17dab..185816b 100644
--- a/src/map.rs
+++ b/src/map.rs
@@ -427,7 +427,7 @@ impl PathTreeNode {
         if let Some(map) = &node.wildcards {
             for (key, target) in map {
                 if remaining_request.starts_with(key) {
-                    let index = (last_non_slash_index + key.len()) as i32;
+                    let index = (last_non_slash_index + key.chars().count()) as i32;
                     if last_folder_match.is_none() || last_folder_match.unwrap().1 < index {
                         last_folder_match = Some((target, index));
                     }
-- 
2.43.0


From ce00f3bab199ea385681b3422e072ddd1061933b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:13 +0000
Subject: [PATCH 16/28] fix: substitute the remaining request as it is

"$$" is an escaped "$" in JavaScript's `replace`, but not in Rust.
---
 src/map.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/map.rs b/src/map.rs
index 185816b..245d69b 100644
--- a/src/map.rs
+++ b/src/map.rs
@@ -152,11 +152,7 @@ pub trait Field {
                 (true, true) => Ok(format!("{target}{request}")),
                 (true, false) => Err(format!("Expected {target} is folder mapping")),
                 (false, true) => Err(format!("Expected {target} is file mapping")),
-                (false, false) => {
-                    let request = remaining_request.as_ref().unwrap();
-                    let to = &request.replace('$', "$$");
-                    Ok(target.replace('*', to))
-                }
+                (false, false) => Ok(target.replace('*', request)),
             }
         } else if !is_folder {
             Ok(target.to_string())
-- 
2.43.0


From ae506784f3a8093e0a1b72663db97cbc322e894c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:14 +0000
Subject: [PATCH 17/28] fix: do not loop forever on a relative path

The parent of a relative path with one component is "", which is not a
directory.
---
 src/description.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/description.rs b/src/description.rs
index 0e9f7ec..8dba678 100644
--- a/src/description.rs
+++ b/src/description.rs
@@ -210,10 +210,10 @@ impl Resolver {
                         self.cache
                             .file_dir_to_pkg_info
                             .insert(path.to_path_buf(), None);
-                        match path.parent() {
-                            Some(parent) => path = parent,
-                            None => return Ok(None),
-                        }
+                    }
+                    match path.parent() {
+                        Some(parent) => path = parent,
+                        None => return Ok(None),
                     }
                 }
             }
-- 
2.43.0


From 90c0afc6bd7ede436211c1fd453010a772107c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:14 +0000
Subject: [PATCH 18/28] fix: read a file again when an older one took its place

Every later resolve failed with "Compare SystemTime failed".
---
 src/fs.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/fs.rs b/src/fs.rs
index 2d67760..e1dc2e0 100644
--- a/src/fs.rs
+++ b/src/fs.rs
@@ -42,12 +42,13 @@ impl CacheFile {
             .get(path.as_ref())
             .map(|value| value.1)
             .map(|stored_last_modify_time| -> RResult<bool> {
-                let duration = Self::get_last_modified_time_from_file(path.as_ref())?
+                match Self::get_last_modified_time_from_file(path.as_ref())?
                     .duration_since(stored_last_modify_time)
-                    .map_err(|_| {
-                        format!("Compare SystemTime failed in {}", path.as_ref().display())
-                    })?;
-                Ok(duration >= self.duration)
+                {
+                    Ok(duration) => Ok(duration >= self.duration),
+                    // the file had been replaced by an older one.
+                    Err(_) => Ok(true),
+                }
             })
             .map_or(Ok(true), |val| val)
     }
-- 
2.43.0


From 533ce923d88f59da0e92aa4a5ef9f4fc3acb31ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:47 +0000
Subject: [PATCH 19/28] fix: do not return the internal tag as an error message

`load_side_effects` of a path without an existing ancestor failed with "T0".
---
 src/description.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/description.rs b/src/description.rs
index 8dba678..e3f88df 100644
--- a/src/description.rs
+++ b/src/description.rs
@@ -1,4 +1,5 @@
 use crate::map::{ExportsField, Field, ImportsField, PathTreeNode};
+use crate::utils::RAISE_RESOLVE_ERROR_TAG;
 use crate::{AliasMap, RResult, Resolver};
 use indexmap::IndexMap;
 use std::path::{Path, PathBuf};
@@ -152,7 +153,14 @@ impl Resolver {
         &self,
         path: &Path,
     ) -> RResult<Option<(PathBuf, Option<SideEffects>)>> {
-        Ok(self.load_pkg_file(path)?.map(|pkg_info| {
+        let pkg_info = self.load_pkg_file(path).map_err(|err| {
+            if err.eq(RAISE_RESOLVE_ERROR_TAG) {
+                format!("Load side effects of {} failed", path.display())
+            } else {
+                err
+            }
+        })?;
+        Ok(pkg_info.map(|pkg_info| {
             (
                 pkg_info
                     .abs_dir_path
-- 
2.43.0


From cb874b49fc865e9b11af228c97a3909384d4337e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:48 +0000
Subject: [PATCH 20/28] fix: compare the whole package name when a package
 requests itself

In the package "foo", "foobar/a" was taken for its own export "./a".
---
 src/plugin/exports_field.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/plugin/exports_field.rs b/src/plugin/exports_field.rs
index cafb875..0526ca9 100644
--- a/src/plugin/exports_field.rs
+++ b/src/plugin/exports_field.rs
@@ -25,7 +25,8 @@ impl<'a> ExportsFieldPlugin<'a> {
         pkg_info
             .name
             .as_ref()
-            .map(|pkg_name| info.request.target.starts_with(pkg_name))
+            .and_then(|pkg_name| info.request.target.strip_prefix(pkg_name.as_str()))
+            .map(|rest| rest.is_empty() || rest.starts_with('/'))
             .map_or(false, |ans| ans)
     }
 }
-- 
2.43.0


From 316b41834bc64d56a10c43454e0ad8121e41cf4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:48 +0000
Subject: [PATCH 21/28] fix: keep the query and the fragment of a request
 mapped by tsconfig

---
 src/parse.rs         | 9 ---------
 src/tsconfig_path.rs | 7 +++++--
 2 files changed, 5 insertions(+), 11 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index a03f701..e51b921 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -18,15 +18,6 @@ impl std::fmt::Display for Request {
 }
 
 impl Request {
-    pub(crate) fn empty() -> Self {
-        Self {
-            target: "".into(),
-            query: "".into(),
-            fragment: "".into(),
-            kind: PathKind::Relative,
-        }
-    }
-
     pub(crate) fn parse_identifier(ident: &str) -> (String, String, String) {
         // maybe we should use regexp: https://github.com/webpack/enhanced-resolve/blob/main/lib/util/identifier.js#L8
         let mut target = String::new();
diff --git a/src/tsconfig_path.rs b/src/tsconfig_path.rs
index 01f5c67..29ffb0f 100644
--- a/src/tsconfig_path.rs
+++ b/src/tsconfig_path.rs
@@ -1,7 +1,7 @@
 // Copy from https://github.com/dividab/tsconfig-paths
 
 use super::tsconfig::TsConfig;
-use crate::{parse::Request, RResult, ResolveInfo, Resolver, ResolverStats};
+use crate::{RResult, ResolveInfo, Resolver, ResolverStats};
 use std::{
     cmp::Ordering,
     collections::HashMap,
@@ -129,7 +129,10 @@ impl Resolver {
                     .replace('*', star_match);
 
                 let path = PathBuf::from(physical_path);
-                let result = self._resolve(ResolveInfo::from(path, Request::empty()));
+                let result = self._resolve(ResolveInfo::from(
+                    path,
+                    info.request.clone().with_target(""),
+                ));
                 if result.is_success() {
                     return result;
                 }
-- 
2.43.0


From 60998fdff2f78ed7ee89423322c821a247ef7597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:49 +0000
Subject: [PATCH 22/28] fix: do not panic when a malformed package.json is read
 again

The debug check took it for one that had been parsed, but only the parsed
ones are cached.
---
 src/description.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/description.rs b/src/description.rs
index e3f88df..3865e5e 100644
--- a/src/description.rs
+++ b/src/description.rs
@@ -39,7 +39,6 @@ impl Resolver {
                     file_path.display()
                 )
             }
-            self.dbg_read_map.insert(&file_path, true);
         }
 
         let str = tracing::debug_span!("read_to_string").in_scope(|| {
@@ -137,6 +136,9 @@ impl Resolver {
             .and_then(|value| value.as_str())
             .map(|str| str.to_string());
 
+        #[cfg(debug_assertions)]
+        self.dbg_read_map.insert(&file_path, true);
+
         Ok(PkgFileInfo {
             name,
             version,
-- 
2.43.0


From b333935fceddb0ce2076ccdd4aa2fff749ea0572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:49 +0000
Subject: [PATCH 23/28] fix: recognize the built-in module "assert/strict"

---
 src/kind.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kind.rs b/src/kind.rs
index 102dbe3..b165bc9 100644
--- a/src/kind.rs
+++ b/src/kind.rs
@@ -29,7 +29,7 @@ const BUILT_IN_MODULE_SET: Set<&'static str> = phf_set! {
    "_tls_common",
    "_tls_wrap",
    "assert",
-   "assert/,strict",
+   "assert/strict",
    "async_hooks",
    "buffer",
    "child_process",
-- 
2.43.0


From 55b203d54a42e1845ccebde5dd192ef4dacf015c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:25 +0000
Subject: [PATCH 24/28] fix: look up a bare target of the imports field as a
 package

---
 src/plugin/imports_field.rs | 32 +++++---------------------------
 1 file changed, 5 insertions(+), 27 deletions(-)

diff --git a/src/plugin/imports_field.rs b/src/plugin/imports_field.rs
index e1dcbdb..d19b790 100644
--- a/src/plugin/imports_field.rs
+++ b/src/plugin/imports_field.rs
@@ -1,8 +1,8 @@
 use std::sync::Arc;
 
-use crate::{description::PkgFileInfo, plugin::ExportsFieldPlugin, Resolver, MODULE};
+use crate::{description::PkgFileInfo, Resolver};
 
-use super::{AliasFieldPlugin, Plugin};
+use super::Plugin;
 use crate::{
     map::{Field, ImportsField},
     PathKind, ResolveInfo, ResolverStats,
@@ -47,33 +47,11 @@ impl<'a> Plugin for ImportsFieldPlugin<'a> {
                 let request = resolver.parse(item);
                 let is_normal_kind = matches!(request.kind, PathKind::Normal);
                 let is_internal_kind = matches!(request.kind, PathKind::Internal);
-                let info = ResolveInfo::from(
-                    if is_normal_kind {
-                        pkg_info.abs_dir_path.join(MODULE)
-                    } else {
-                        pkg_info.abs_dir_path.to_path_buf()
-                    },
-                    request,
-                );
+                let info = ResolveInfo::from(pkg_info.abs_dir_path.to_path_buf(), request);
 
                 if is_normal_kind {
-                    let path = info.get_path();
-                    // TODO: should optimized
-                    let pkg_info = match resolver.load_pkg_file(&path) {
-                        Ok(info) => info,
-                        Err(err) => return ResolverStats::Error((err, info)),
-                    };
-                    if let Some(ref pkg_info) = pkg_info {
-                        if !pkg_info.abs_dir_path.display().to_string().contains(MODULE) {
-                            return ResolverStats::Resolving(info);
-                        }
-                    }
-
-                    ExportsFieldPlugin::new(&pkg_info)
-                        .apply(resolver, info)
-                        .and_then(|info| ImportsFieldPlugin::new(&pkg_info).apply(resolver, info))
-                        .and_then(|info| AliasFieldPlugin::new(&pkg_info).apply(resolver, info))
-                        .and_then(|info| ImportsFieldPlugin::check_target(info, target))
+                    // it is looked up as a package, from the directory of this one.
+                    ResolverStats::Resolving(info)
                 } else if is_internal_kind {
                     self.apply(resolver, info)
                 } else {
-- 
2.43.0


From 23565139fca5d13451f99d3cc108389075b5a804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:49 +0000
Subject: [PATCH 25/28] fix: use the exports of the requested package only

---
 src/plugin/exports_field.rs | 20 ++++++++++++++++----
 src/resolve.rs              |  7 ++++++-
 2 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/plugin/exports_field.rs b/src/plugin/exports_field.rs
index 0526ca9..62759f1 100644
--- a/src/plugin/exports_field.rs
+++ b/src/plugin/exports_field.rs
@@ -1,6 +1,6 @@
 use std::sync::Arc;
 
-use crate::{description::PkgFileInfo, kind::PathKind, Resolver, MODULE};
+use crate::{description::PkgFileInfo, kind::PathKind, Resolver};
 
 use super::Plugin;
 use crate::{
@@ -17,8 +17,18 @@ impl<'a> ExportsFieldPlugin<'a> {
         Self { pkg_info }
     }
 
-    fn is_in_module(&self, pkg_info: &PkgFileInfo) -> bool {
-        pkg_info.abs_dir_path.to_string_lossy().contains(MODULE)
+    /// Is `pkg_info` located at the root of the package which `info` requests?
+    fn is_requested_package(pkg_info: &PkgFileInfo, info: &ResolveInfo) -> bool {
+        let target = &info.request.target;
+        let start = match target.find('/') {
+            Some(index) if target.starts_with('@') => index + 1,
+            _ => 0,
+        };
+        let package_name = match target[start..].find('/') {
+            Some(index) => &target[..start + index],
+            None => target,
+        };
+        pkg_info.abs_dir_path == info.path.join(package_name)
     }
 
     pub(crate) fn is_resolve_self(pkg_info: &PkgFileInfo, info: &ResolveInfo) -> bool {
@@ -40,7 +50,9 @@ impl<'a> Plugin for ExportsFieldPlugin<'a> {
                 return ResolverStats::Resolving(info);
             }
 
-            if !self.is_in_module(pkg_info) && !Self::is_resolve_self(pkg_info, &info) {
+            if !Self::is_requested_package(pkg_info, &info)
+                && !Self::is_resolve_self(pkg_info, &info)
+            {
                 return ResolverStats::Resolving(info);
             }
 
diff --git a/src/resolve.rs b/src/resolve.rs
index f2f75c8..851c95c 100644
--- a/src/resolve.rs
+++ b/src/resolve.rs
@@ -70,6 +70,11 @@ impl Resolver {
                 Ok(pkg_info) => pkg_info,
                 Err(err) => return ResolverStats::Error((err, info)),
             };
+            // a nested description file does not replace the exports of the package.
+            let module_pkg_info = match self.load_pkg_file(&module_path) {
+                Ok(pkg_info) => pkg_info,
+                Err(err) => return ResolverStats::Error((err, info)),
+            };
             let is_resolve_self = pkg_info.as_ref().map_or(false, |pkg_info| {
                 ExportsFieldPlugin::is_resolve_self(pkg_info, &module_info)
             });
@@ -81,7 +86,7 @@ impl Resolver {
                     ResolverStats::Resolving(info)
                 }
             } else {
-                let stats = ExportsFieldPlugin::new(&pkg_info)
+                let stats = ExportsFieldPlugin::new(&module_pkg_info)
                     .apply(self, module_info)
                     .and_then(|info| ImportsFieldPlugin::new(&pkg_info).apply(self, info))
                     .and_then(|info| {
-- 
2.43.0


From c719c850bcb4fe0579cbc69c52a0c765b6cd294e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:32 +0000
Subject: [PATCH 26/28] fix: forget a description that can no longer be read

---
 src/description.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/description.rs b/src/description.rs
index 3865e5e..40cd0f5 100644
--- a/src/description.rs
+++ b/src/description.rs
@@ -229,9 +229,14 @@ impl Resolver {
             }
         }
 
-        let pkg_info = Some(Arc::new(
-            self.parse_description_file(path, description_file_path)?,
-        ));
+        let pkg_info = match self.parse_description_file(path, description_file_path) {
+            Ok(pkg_info) => Some(Arc::new(pkg_info)),
+            Err(error) => {
+                // the content read before is no longer valid.
+                self.cache.file_dir_to_pkg_info.remove(path);
+                return Err(error);
+            }
+        };
 
         self.cache
             .file_dir_to_pkg_info
-- 
2.43.0


From c7db4fec526a2868c176401002e34d9f63f7cbab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:33 +0000
Subject: [PATCH 27/28] fix: only a directory called node_modules turns aliases
 off

---
 src/plugin/alias.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/plugin/alias.rs b/src/plugin/alias.rs
index 316222f..98c2ad9 100644
--- a/src/plugin/alias.rs
+++ b/src/plugin/alias.rs
@@ -9,7 +9,11 @@ pub struct AliasPlugin;
 impl Plugin for AliasPlugin {
     fn apply(&self, resolver: &Resolver, info: ResolveInfo) -> ResolverStats {
         let inner_target = &info.request.target;
-        if info.path.display().to_string().contains(MODULE) {
+        if info
+            .path
+            .components()
+            .any(|component| component.as_os_str() == MODULE)
+        {
             return ResolverStats::Resolving(info);
         }
         for (from, to) in &resolver.options.alias {
-- 
2.43.0


From 093e96006b085a46530ae51ecb0820b8b2532294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:32 +0000
Subject: [PATCH 28/28] fix: keep the canonical text of a package folder in its
 description

The cache of descriptions compares paths by their components, but the
description kept the text through which its folder was reached first
(`p`, `p/` or `p/.`), so that a browser replacement "." named another file
depending on which queries came before.
---
 src/description.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/description.rs b/src/description.rs
index 40cd0f5..01584fa 100644
--- a/src/description.rs
+++ b/src/description.rs
@@ -142,7 +142,8 @@ impl Resolver {
         Ok(PkgFileInfo {
             name,
             version,
-            abs_dir_path: dir.to_path_buf(),
+            // The canonical text: the same folder can be reached as `dir`, `dir/` or `dir/.`.
+            abs_dir_path: dir.components().collect(),
             alias_fields,
             exports_field_tree,
             imports_field_tree,
-- 
2.43.0

