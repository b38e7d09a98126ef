From 442a8f554fea432bbec1db72e6154002b1ebfaff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:01 +0000
Subject: [PATCH 01/86] fix: parse extension ids with a dash in the version

---
 crates/extension/src/id.rs | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/crates/extension/src/id.rs b/crates/extension/src/id.rs
index 1e9076c..c4c7568 100644
--- a/crates/extension/src/id.rs
+++ b/crates/extension/src/id.rs
@@ -15,11 +15,23 @@ impl std::fmt::Display for Id {
 impl FromStr for Id {
     type Err = semver::Error;
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        let (name, version) = s.rsplit_once('-').unwrap();
-        Ok(Self {
-            name: name.to_string(),
-            version: semver::Version::parse(version)?,
-        })
+        // Both the name and the version's pre-release or build metadata may contain dashes.
+        let mut error = None;
+        for (ix, _) in s.rmatch_indices('-') {
+            match semver::Version::parse(&s[ix + 1..]) {
+                Ok(version) => {
+                    return Ok(Self {
+                        name: s[..ix].to_string(),
+                        version,
+                    });
+                }
+                Err(err) => {
+                    error.get_or_insert(err);
+                }
+            }
+        }
+        // Without any dash there isn't any version.
+        Err(error.unwrap_or_else(|| semver::Version::parse("").unwrap_err()))
     }
 }
 
-- 
2.43.0


From f352c8f37e9510cd09bd8e65f328ea5b6b396b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:22 +0000
Subject: [PATCH 02/86] fix: do not overwrite rotated log files, count written
 bytes, resume after a failed rotation

---
 crates/rolling-logger/src/lib.rs      | 28 +++++++++++++++++++++++----
 crates/rolling-logger/src/log_file.rs |  6 ++++--
 2 files changed, 28 insertions(+), 6 deletions(-)

diff --git a/crates/rolling-logger/src/lib.rs b/crates/rolling-logger/src/lib.rs
index f5e161c..8469437 100644
--- a/crates/rolling-logger/src/lib.rs
+++ b/crates/rolling-logger/src/lib.rs
@@ -69,16 +69,36 @@ impl RollingLogger {
     fn flush_and_rotate(&mut self) -> io::Result<()> {
         self.flush()?;
 
-        let mut path = self.path.as_os_str().to_os_string();
-        path.push(format!(".{}", self.file.timestamp()));
-
-        std::fs::rename(&self.path, &path)?;
+        // An earlier rotation may have failed after the rename, there is only a new file to create then.
+        if self.path.exists() {
+            std::fs::rename(&self.path, self.rotated_path())?;
+        }
 
         self.file = LogFile::new(&self.path, self.file.copy_new_rotate())?;
 
         Ok(())
     }
 
+    /// The path the current log file is renamed to on rotation: the base path with the timestamp of
+    /// the file, and a counter if files were already rotated with the same timestamp.
+    fn rotated_path(&self) -> PathBuf {
+        let mut base = self.path.as_os_str().to_os_string();
+        base.push(format!(".{}", self.file.timestamp()));
+
+        let mut path = PathBuf::from(&base);
+        let mut counter = 0;
+
+        while path.exists() {
+            counter += 1;
+
+            let mut next = base.clone();
+            next.push(format!(".{counter}"));
+            path = PathBuf::from(next);
+        }
+
+        path
+    }
+
     #[cfg(test)]
     pub(crate) fn set_rotate_start(&mut self, start: std::time::SystemTime) {
         self.file.set_rotate_start(start);
diff --git a/crates/rolling-logger/src/log_file.rs b/crates/rolling-logger/src/log_file.rs
index 80097df..a275fd7 100644
--- a/crates/rolling-logger/src/log_file.rs
+++ b/crates/rolling-logger/src/log_file.rs
@@ -102,8 +102,10 @@ impl LogFile {
 
 impl Write for LogFile {
     fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
-        self.size += buf.len() as u64;
-        self.file.write(buf)
+        let written = self.file.write(buf)?;
+        self.size += written as u64;
+
+        Ok(written)
     }
 
     fn flush(&mut self) -> io::Result<()> {
-- 
2.43.0


From f74a686072b2bc460e69e46659090ecd1be7d7a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:15 +0000
Subject: [PATCH 03/86] fix: graphql-schema-diff: report every change once

Types and directives sharing a name, types extended before their definition,
interfaces implemented in extensions and types that change kind were
misreported, and the text of additions left out descriptions.
---
 crates/graphql-schema-diff/src/state.rs       | 52 +++++++++++---
 .../src/traverse_schemas.rs                   | 69 ++++++++++---------
 2 files changed, 81 insertions(+), 40 deletions(-)

diff --git a/crates/graphql-schema-diff/src/state.rs b/crates/graphql-schema-diff/src/state.rs
index 3d28a26..e37098b 100644
--- a/crates/graphql-schema-diff/src/state.rs
+++ b/crates/graphql-schema-diff/src/state.rs
@@ -10,6 +10,7 @@ pub(crate) struct DiffState<'a> {
     pub(crate) schema_definition_map: [Option<ast::SchemaDefinition<'a>>; 2],
     pub(crate) schema_extensions: Vec<[Option<ast::SchemaDefinition<'a>>; 2]>,
     pub(crate) types_map: DiffMap<&'a str, ast::Definition<'a>>,
+    pub(crate) directives_map: DiffMap<&'a str, ast::Definition<'a>>,
     pub(crate) fields_map: DiffMap<[&'a str; 2], (Option<ast::Type<'a>>, Span)>,
     pub(crate) interface_impls: DiffMap<&'a str, Vec<&'a str>>,
     pub(crate) arguments_map: DiffMap<[&'a str; 3], ast::InputValueDefinition<'a>>,
@@ -50,6 +51,7 @@ impl DiffState<'_> {
             schema_definition_map,
             schema_extensions,
             types_map,
+            directives_map,
             fields_map,
             arguments_map,
             interface_impls,
@@ -66,11 +68,12 @@ impl DiffState<'_> {
 
         push_schema_definition_changes(schema_definition_map, &mut push_change);
         push_schema_extension_changes(schema_extensions, &mut push_change);
-        push_interface_implementer_changes(interface_impls, &mut push_change);
+        push_interface_implementer_changes(interface_impls, &types_map, &mut push_change);
 
         push_definition_changes(&types_map, &mut push_change);
+        push_definition_changes(&directives_map, &mut push_change);
         push_field_changes(&fields_map, &types_map, &mut push_change);
-        push_argument_changes(&fields_map, &arguments_map, &mut push_change);
+        push_argument_changes(&fields_map, &types_map, &arguments_map, &mut push_change);
 
         changes.sort();
 
@@ -84,16 +87,16 @@ fn push_schema_extension_changes(
     schema_extensions: Vec<[Option<ast::SchemaDefinition<'_>>; 2]>,
     push_change: PushChangeFn<'_>,
 ) {
-    for extension in schema_extensions {
+    for (index, extension) in schema_extensions.into_iter().enumerate() {
         match extension {
             // TODO(GB-7390): we only react to additions and removals for now. We should do full diffing.
             [None, Some(def)] => push_change(
-                path::Path::SchemaExtension(0),
+                path::Path::SchemaExtension(index),
                 ChangeKind::AddSchemaExtension,
                 def.span().into(),
             ),
             [Some(def), None] => push_change(
-                path::Path::SchemaExtension(0),
+                path::Path::SchemaExtension(index),
                 ChangeKind::RemoveSchemaExtension,
                 def.span().into(),
             ),
@@ -102,9 +105,25 @@ fn push_schema_extension_changes(
     }
 }
 
-fn push_interface_implementer_changes(interface_impls: DiffMap<&str, Vec<&str>>, push_change: PushChangeFn<'_>) {
+/// The type exists on one side only, or it is not the same kind of type on both sides.
+fn is_other_definition(types_map: &DiffMap<&str, ast::Definition<'_>>, type_name: &str) -> bool {
+    match &types_map[type_name] {
+        (Some(a), Some(b)) => DefinitionKind::new(a) != DefinitionKind::new(b),
+        _ => true,
+    }
+}
+
+fn push_interface_implementer_changes(
+    interface_impls: DiffMap<&str, Vec<&str>>,
+    types_map: &DiffMap<&str, ast::Definition<'_>>,
+    push_change: PushChangeFn<'_>,
+) {
     // O(n²) but n should always be small enough to not matter
     for (implementer, (src, target)) in &interface_impls {
+        if is_other_definition(types_map, implementer) {
+            continue;
+        }
+
         let Some((src, target)) = src.as_deref().zip(target.as_deref()) else {
             continue;
         };
@@ -133,10 +152,15 @@ fn push_interface_implementer_changes(interface_impls: DiffMap<&str, Vec<&str>>,
 
 fn push_argument_changes(
     fields_map: &DiffMap<[&str; 2], (Option<ast::Type<'_>>, Span)>,
+    types_map: &DiffMap<&str, ast::Definition<'_>>,
     arguments_map: &DiffMap<[&str; 3], ast::InputValueDefinition<'_>>,
     push_change: PushChangeFn<'_>,
 ) {
     for ([type_name, field_name, arg_name], (src, target)) in arguments_map {
+        if is_other_definition(types_map, type_name) {
+            continue;
+        }
+
         let parent_is_gone = match fields_map[&[*type_name, *field_name]] {
             (Some(_), None) => true,
             (None, Some(_)) => continue,
@@ -282,13 +306,25 @@ fn push_added_type(name: &str, definition: ast::Definition<'_>, push_change: Pus
         DefinitionKind::Union => ChangeKind::AddUnion,
     };
 
+    let description = match definition {
+        ast::Definition::Type(ty) => ty.description(),
+        ast::Definition::Directive(directive) => directive.description(),
+        _ => None,
+    };
+
     push_change(
         path::Path::TypeDefinition(name, None),
         change_kind,
-        definition.span().into(),
+        span_with_description(definition.span(), description),
     )
 }
 
+/// The span of a definition does not include its description.
+fn span_with_description(span: cynic_parser::Span, description: Option<ast::Description<'_>>) -> Span {
+    let start = description.map(|description| description.span().start);
+    Span::new(start.unwrap_or(span.start), span.end)
+}
+
 fn push_removed_type(name: &str, definition: ast::Definition<'_>, push_change: PushChangeFn<'_>) {
     let change_kind = match DefinitionKind::new(&definition).unwrap() {
         DefinitionKind::Directive => ChangeKind::RemoveDirectiveDefinition,
@@ -353,7 +389,7 @@ fn push_schema_definition_changes(
         [None, Some(definition)] => push_change(
             path::Path::SchemaDefinition,
             ChangeKind::AddSchemaDefinition,
-            definition.span().into(),
+            span_with_description(definition.span(), definition.description()),
         ),
         [Some(_), None] => push_change(
             path::Path::SchemaDefinition,
diff --git a/crates/graphql-schema-diff/src/traverse_schemas.rs b/crates/graphql-schema-diff/src/traverse_schemas.rs
index eebf66b..77f717f 100644
--- a/crates/graphql-schema-diff/src/traverse_schemas.rs
+++ b/crates/graphql-schema-diff/src/traverse_schemas.rs
@@ -31,22 +31,21 @@ fn traverse_source<'a>(source: &'a ast::TypeSystemDocument, state: &mut DiffStat
                 state.schema_definition_map[0] = Some(def);
             }
             ast::Definition::Directive(directive_def) => {
-                insert_source(&mut state.types_map, directive_def.name(), definition);
+                insert_source(&mut state.directives_map, directive_def.name(), definition);
             }
             ast::Definition::Type(tpe) | ast::Definition::TypeExtension(tpe) => {
                 let type_name = tpe.name();
 
                 match &tpe {
                     ast::TypeDefinition::Scalar(_) => {
-                        state.types_map.insert(type_name, (Some(definition), None));
+                        set_definition(&mut state.types_map.entry(type_name).or_default().0, definition);
                     }
                     ast::TypeDefinition::Object(obj) => {
-                        state.types_map.insert(type_name, (Some(definition), None));
-                        insert_source(
-                            &mut state.interface_impls,
-                            type_name,
-                            obj.implements_interfaces().collect(),
-                        );
+                        set_definition(&mut state.types_map.entry(type_name).or_default().0, definition);
+                        let interface_impls = &mut state.interface_impls.entry(type_name).or_default().0;
+                        interface_impls
+                            .get_or_insert_default()
+                            .extend(obj.implements_interfaces());
 
                         for field in obj.fields() {
                             let field_name = field.name();
@@ -62,12 +61,11 @@ fn traverse_source<'a>(source: &'a ast::TypeSystemDocument, state: &mut DiffStat
                         }
                     }
                     ast::TypeDefinition::Interface(iface) => {
-                        state.types_map.insert(type_name, (Some(definition), None));
-                        insert_source(
-                            &mut state.interface_impls,
-                            type_name,
-                            iface.implements_interfaces().collect(),
-                        );
+                        set_definition(&mut state.types_map.entry(type_name).or_default().0, definition);
+                        let interface_impls = &mut state.interface_impls.entry(type_name).or_default().0;
+                        interface_impls
+                            .get_or_insert_default()
+                            .extend(iface.implements_interfaces());
 
                         for field in iface.fields() {
                             let field_name = field.name();
@@ -82,7 +80,7 @@ fn traverse_source<'a>(source: &'a ast::TypeSystemDocument, state: &mut DiffStat
                         }
                     }
                     ast::TypeDefinition::Union(union) => {
-                        state.types_map.insert(type_name, (Some(definition), None));
+                        set_definition(&mut state.types_map.entry(type_name).or_default().0, definition);
 
                         for member in union.members() {
                             insert_source(
@@ -93,7 +91,7 @@ fn traverse_source<'a>(source: &'a ast::TypeSystemDocument, state: &mut DiffStat
                         }
                     }
                     ast::TypeDefinition::Enum(enm) => {
-                        state.types_map.insert(type_name, (Some(definition), None));
+                        set_definition(&mut state.types_map.entry(type_name).or_default().0, definition);
 
                         for value in enm.values() {
                             insert_source(
@@ -104,7 +102,7 @@ fn traverse_source<'a>(source: &'a ast::TypeSystemDocument, state: &mut DiffStat
                         }
                     }
                     ast::TypeDefinition::InputObject(input) => {
-                        state.types_map.insert(type_name, (Some(definition), None));
+                        set_definition(&mut state.types_map.entry(type_name).or_default().0, definition);
 
                         for field in input.fields() {
                             insert_source(
@@ -138,21 +136,21 @@ fn traverse_target<'a>(target: &'a ast::TypeSystemDocument, state: &mut DiffStat
                 state.schema_definition_map[1] = Some(def);
             }
             ast::Definition::Directive(directive_def) => {
-                merge_target(state.types_map.entry(directive_def.name()), definition);
+                merge_target(state.directives_map.entry(directive_def.name()), definition);
             }
             ast::Definition::Type(tpe) | ast::Definition::TypeExtension(tpe) => {
                 let type_name = tpe.name();
 
                 match tpe {
                     ast::TypeDefinition::Scalar(_) => {
-                        state.types_map.entry(type_name).or_default().1 = Some(definition);
+                        set_definition(&mut state.types_map.entry(type_name).or_default().1, definition);
                     }
                     ast::TypeDefinition::Object(obj) => {
-                        state.types_map.entry(type_name).or_default().1 = Some(definition);
-                        merge_target(
-                            state.interface_impls.entry(type_name),
-                            obj.implements_interfaces().collect(),
-                        );
+                        set_definition(&mut state.types_map.entry(type_name).or_default().1, definition);
+                        let interface_impls = &mut state.interface_impls.entry(type_name).or_default().1;
+                        interface_impls
+                            .get_or_insert_default()
+                            .extend(obj.implements_interfaces());
 
                         for field in obj.fields() {
                             merge_target(
@@ -164,11 +162,11 @@ fn traverse_target<'a>(target: &'a ast::TypeSystemDocument, state: &mut DiffStat
                         }
                     }
                     ast::TypeDefinition::Interface(iface) => {
-                        state.types_map.entry(type_name).or_default().1 = Some(definition);
-                        merge_target(
-                            state.interface_impls.entry(type_name),
-                            iface.implements_interfaces().collect(),
-                        );
+                        set_definition(&mut state.types_map.entry(type_name).or_default().1, definition);
+                        let interface_impls = &mut state.interface_impls.entry(type_name).or_default().1;
+                        interface_impls
+                            .get_or_insert_default()
+                            .extend(iface.implements_interfaces());
 
                         for field in iface.fields() {
                             let field_name = field.name();
@@ -181,7 +179,7 @@ fn traverse_target<'a>(target: &'a ast::TypeSystemDocument, state: &mut DiffStat
                         }
                     }
                     ast::TypeDefinition::Union(union) => {
-                        state.types_map.entry(type_name).or_default().1 = Some(definition);
+                        set_definition(&mut state.types_map.entry(type_name).or_default().1, definition);
 
                         for member in union.members() {
                             merge_target(
@@ -191,7 +189,7 @@ fn traverse_target<'a>(target: &'a ast::TypeSystemDocument, state: &mut DiffStat
                         }
                     }
                     ast::TypeDefinition::Enum(enm) => {
-                        state.types_map.entry(type_name).or_default().1 = Some(definition);
+                        set_definition(&mut state.types_map.entry(type_name).or_default().1, definition);
 
                         for value in enm.values() {
                             merge_target(
@@ -201,7 +199,7 @@ fn traverse_target<'a>(target: &'a ast::TypeSystemDocument, state: &mut DiffStat
                         }
                     }
                     ast::TypeDefinition::InputObject(input) => {
-                        state.types_map.entry(type_name).or_default().1 = Some(definition);
+                        set_definition(&mut state.types_map.entry(type_name).or_default().1, definition);
 
                         for field in input.fields() {
                             merge_target(
@@ -240,6 +238,13 @@ fn args_target<'a>(
     }
 }
 
+// The definition of a type takes precedence over its extensions.
+fn set_definition<'a>(slot: &mut Option<ast::Definition<'a>>, definition: ast::Definition<'a>) {
+    if slot.is_none() || matches!(definition, ast::Definition::Type(_)) {
+        *slot = Some(definition);
+    }
+}
+
 fn insert_source<K: Hash + Eq, V>(map: &mut DiffMap<K, V>, key: K, source: V) {
     map.insert(key, (Some(source), None));
 }
-- 
2.43.0


From 166044adc45e06c4f8673d1e91327c456f38464a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:15 +0000
Subject: [PATCH 04/86] fix: graphql-schema-diff: patching gives the target
 schema

Argument changes were not applied, added members were repeated in every
extension, descriptions, defaults and enum values' directives could be lost,
empty braces were printed, and a change of kind panicked.
---
 crates/graphql-schema-diff/src/patch.rs       |  44 +--
 .../src/patch/directives.rs                   |   6 +
 crates/graphql-schema-diff/src/patch/paths.rs |  16 +-
 .../src/patch/schema_definitions.rs           |  25 +-
 .../src/patch/type_definitions.rs             | 258 +++++++++++++-----
 5 files changed, 238 insertions(+), 111 deletions(-)

diff --git a/crates/graphql-schema-diff/src/patch.rs b/crates/graphql-schema-diff/src/patch.rs
index a81a822..ba6ad53 100644
--- a/crates/graphql-schema-diff/src/patch.rs
+++ b/crates/graphql-schema-diff/src/patch.rs
@@ -4,7 +4,8 @@ mod schema_definitions;
 mod type_definitions;
 
 use self::paths::Paths;
-use crate::{Change, ChangeKind};
+use crate::{Change, ChangeKind, path::Path};
+use std::collections::HashSet;
 
 const INDENTATION: &str = "  ";
 
@@ -44,24 +45,39 @@ where
         }
     }
 
+    let mut schema_extensions_count = 0;
+    let mut patched_types = HashSet::new();
+
     for definition in parsed.definitions() {
         match definition {
             cynic_parser::type_system::Definition::Schema(def) => {
-                schema_definitions::patch_schema_definition(
-                    def,
-                    DefinitionOrExtension::Definition,
-                    &mut schema,
-                    &paths,
-                );
+                schema_definitions::patch_schema_definition(def, Path::SchemaDefinition, &mut schema, &paths);
             }
             cynic_parser::type_system::Definition::SchemaExtension(def) => {
-                schema_definitions::patch_schema_definition(def, DefinitionOrExtension::Extension, &mut schema, &paths);
+                let path = Path::SchemaExtension(schema_extensions_count);
+                schema_extensions_count += 1;
+                schema_definitions::patch_schema_definition(def, path, &mut schema, &paths);
             }
             cynic_parser::type_system::Definition::Type(ty) => {
-                type_definitions::patch_type_definition(ty, DefinitionOrExtension::Definition, &mut schema, &paths);
+                // What is added to a type is only added once, not to the definition and every extension.
+                let is_first = patched_types.insert(ty.name());
+                type_definitions::patch_type_definition(
+                    ty,
+                    DefinitionOrExtension::Definition,
+                    is_first,
+                    &mut schema,
+                    &paths,
+                );
             }
             cynic_parser::type_system::Definition::TypeExtension(ty) => {
-                type_definitions::patch_type_definition(ty, DefinitionOrExtension::Extension, &mut schema, &paths);
+                let is_first = patched_types.insert(ty.name());
+                type_definitions::patch_type_definition(
+                    ty,
+                    DefinitionOrExtension::Extension,
+                    is_first,
+                    &mut schema,
+                    &paths,
+                );
             }
             cynic_parser::type_system::Definition::Directive(directive_definition) => {
                 directives::patch_directive_definition(directive_definition, &mut schema, &paths);
@@ -85,14 +101,6 @@ impl DefinitionOrExtension {
     fn is_extension(&self) -> bool {
         matches!(self, Self::Extension)
     }
-
-    /// Returns `true` if the definition or extension is [`Definition`].
-    ///
-    /// [`Definition`]: DefinitionOrExtension::Definition
-    #[must_use]
-    fn is_definition(&self) -> bool {
-        matches!(self, Self::Definition)
-    }
 }
 
 /// A schema patched with [patch()].
diff --git a/crates/graphql-schema-diff/src/patch/directives.rs b/crates/graphql-schema-diff/src/patch/directives.rs
index 43decff..6ccfb62 100644
--- a/crates/graphql-schema-diff/src/patch/directives.rs
+++ b/crates/graphql-schema-diff/src/patch/directives.rs
@@ -16,6 +16,12 @@ pub(super) fn patch_directive_definition<T: AsRef<str>>(
         return;
     }
 
+    if let Some(description) = directive_definition.description() {
+        let span = description.span();
+        schema.push_str(&paths.source()[span.start..span.end]);
+        schema.push('\n');
+    }
+
     let span = directive_definition.span();
 
     schema.push_str(&paths.source()[span.start..span.end]);
diff --git a/crates/graphql-schema-diff/src/patch/paths.rs b/crates/graphql-schema-diff/src/patch/paths.rs
index 7b7edd5..b574797 100644
--- a/crates/graphql-schema-diff/src/patch/paths.rs
+++ b/crates/graphql-schema-diff/src/patch/paths.rs
@@ -48,7 +48,7 @@ where
             .map(|(_, idx)| ChangeView { paths: self, idx: *idx })
     }
 
-    pub(super) fn iter_exact<'b: 'a>(&'b self, path: [&'b str; 3]) -> impl Iterator<Item = ChangeView<'a, T>> + 'b {
+    pub(super) fn iter_exact<'b, 'c: 'b>(&'b self, path: [&'c str; 3]) -> impl Iterator<Item = ChangeView<'b, T>> + 'b {
         let first = self.paths.partition_point(|(diff_path, _)| diff_path < &path);
         self.paths[first..]
             .iter()
@@ -71,13 +71,13 @@ where
     }
 
     pub(crate) fn is_interface_impl_removed(&self, prefix: &str, interface: &str) -> bool {
-        self.paths
-            .binary_search_by(|(path, idx)| {
-                [path[0], path[1].trim_start_matches('&')]
-                    .cmp(&[prefix, interface])
-                    .then(self.diff[*idx].kind.cmp(&ChangeKind::RemoveInterfaceImplementation))
-            })
-            .is_ok()
+        let start = self.paths.partition_point(|([found, _, _], _)| *found < prefix);
+
+        self.paths[start..]
+            .iter()
+            .take_while(|([name, _, _], _)| *name == prefix)
+            .filter(|(_, idx)| matches!(self.diff[*idx].kind, ChangeKind::RemoveInterfaceImplementation))
+            .any(|([_, removed, _], _)| removed.trim_start_matches('&') == interface)
     }
 }
 
diff --git a/crates/graphql-schema-diff/src/patch/schema_definitions.rs b/crates/graphql-schema-diff/src/patch/schema_definitions.rs
index 711d6c5..fe5a09d 100644
--- a/crates/graphql-schema-diff/src/patch/schema_definitions.rs
+++ b/crates/graphql-schema-diff/src/patch/schema_definitions.rs
@@ -1,12 +1,12 @@
 use cynic_parser::type_system::SchemaDefinition;
 
-use crate::ChangeKind;
+use crate::{ChangeKind, path::Path};
 
-use super::{DefinitionOrExtension, INDENTATION, directives::patch_directives, paths::Paths};
+use super::{INDENTATION, directives::patch_directives, paths::Paths};
 
 pub(super) fn patch_schema_definition<T: AsRef<str>>(
     definition: SchemaDefinition<'_>,
-    definition_or_extension: super::DefinitionOrExtension,
+    path: Path<'_>,
     schema: &mut String,
     paths: &Paths<'_, T>,
 ) {
@@ -14,12 +14,10 @@ pub(super) fn patch_schema_definition<T: AsRef<str>>(
     let mut new_mutation_type = None;
     let mut new_subscription_type = None;
 
-    let prefix = match definition_or_extension {
-        DefinitionOrExtension::Extension => ":schema[0]",
-        DefinitionOrExtension::Definition => ":schema",
-    };
+    let is_extension = matches!(path, Path::SchemaExtension(_));
+    let path = path.to_string();
 
-    for change in paths.iter_exact([prefix, "", ""]) {
+    for change in paths.iter_exact([&path, "", ""]) {
         match change.kind() {
             ChangeKind::ChangeQueryType => {
                 new_query_type = Some(change.resolved_str());
@@ -30,13 +28,18 @@ pub(super) fn patch_schema_definition<T: AsRef<str>>(
             ChangeKind::ChangeSubscriptionType => {
                 new_subscription_type = Some(change.resolved_str());
             }
-            ChangeKind::RemoveSchemaDefinition if definition_or_extension.is_definition() => return,
-            ChangeKind::RemoveSchemaExtension if definition_or_extension.is_extension() => return,
+            ChangeKind::RemoveSchemaDefinition | ChangeKind::RemoveSchemaExtension => return,
             _ => (),
         }
     }
 
-    if let DefinitionOrExtension::Extension = definition_or_extension {
+    if let Some(description) = definition.description() {
+        let span = description.span();
+        schema.push_str(&paths.source()[span.start..span.end]);
+        schema.push('\n');
+    }
+
+    if is_extension {
         schema.push_str("extend ");
     }
 
diff --git a/crates/graphql-schema-diff/src/patch/type_definitions.rs b/crates/graphql-schema-diff/src/patch/type_definitions.rs
index 5fc90b3..e8a0504 100644
--- a/crates/graphql-schema-diff/src/patch/type_definitions.rs
+++ b/crates/graphql-schema-diff/src/patch/type_definitions.rs
@@ -9,6 +9,7 @@ use super::{DefinitionOrExtension, INDENTATION, directives::patch_directives, pa
 pub(super) fn patch_type_definition<T: AsRef<str>>(
     ty: TypeDefinition<'_>,
     definition_or_extension: super::DefinitionOrExtension,
+    is_first: bool,
     schema: &mut String,
     paths: &Paths<'_, T>,
 ) {
@@ -20,12 +21,47 @@ pub(super) fn patch_type_definition<T: AsRef<str>>(
             | ChangeKind::RemoveScalar
             | ChangeKind::RemoveInterface
             | ChangeKind::RemoveInputObject => return,
-            kind => {
-                debug_assert!(false, "Unhandled change at `{path}`: {kind:?}", path = change.path())
-            }
+            // A directive with the same name, or the new definition of a type that changes kind.
+            _ => (),
         }
     }
 
+    let mut body = String::new();
+
+    match ty {
+        TypeDefinition::Scalar(_) => (),
+        TypeDefinition::Object(object) => patch_fields(object.fields(), ty.name(), is_first, &mut body, paths),
+        TypeDefinition::Interface(interface) => patch_fields(interface.fields(), ty.name(), is_first, &mut body, paths),
+        TypeDefinition::Union(union) => patch_union(union.members(), ty.name(), is_first, &mut body, paths),
+        TypeDefinition::Enum(r#enum) => patch_enum_values(r#enum.values(), ty.name(), is_first, &mut body, paths),
+        TypeDefinition::InputObject(input_object) => {
+            patch_input_object(input_object.fields(), ty.name(), is_first, &mut body, paths)
+        }
+    }
+
+    let mut implements: Vec<&str> = match ty {
+        TypeDefinition::Object(obj) => obj.implements_interfaces().collect(),
+        TypeDefinition::Interface(interface) => interface.implements_interfaces().collect(),
+        _ => Vec::new(),
+    };
+
+    if is_first {
+        implements.extend(paths.added_interface_impls(ty.name()));
+    }
+
+    implements.retain(|interface| !paths.is_interface_impl_removed(ty.name(), interface));
+    implements.sort_unstable();
+    implements.dedup();
+
+    // Everything was removed from the extension.
+    if definition_or_extension.is_extension()
+        && body.is_empty()
+        && implements.is_empty()
+        && ty.directives().next().is_none()
+    {
+        return;
+    }
+
     if let Some(description) = ty.description() {
         let span = description.span();
         schema.push_str(&paths.source()[span.start..span.end]);
@@ -49,17 +85,6 @@ pub(super) fn patch_type_definition<T: AsRef<str>>(
     schema.push(' ');
     schema.push_str(ty.name());
 
-    let mut implements: Vec<&str> = match ty {
-        TypeDefinition::Object(obj) => obj.implements_interfaces().collect(),
-        TypeDefinition::Interface(interface) => interface.implements_interfaces().collect(),
-        _ => Vec::new(),
-    };
-
-    implements.extend(paths.added_interface_impls(ty.name()));
-    implements.retain(|interface| !paths.is_interface_impl_removed(ty.name(), interface));
-    implements.sort_unstable();
-    implements.dedup();
-
     if !implements.is_empty() {
         schema.push_str(" implements ");
         schema.push_str(&implements.join(" & "));
@@ -69,12 +94,13 @@ pub(super) fn patch_type_definition<T: AsRef<str>>(
 
     match ty {
         TypeDefinition::Scalar(_) => (),
-        TypeDefinition::Object(object) => patch_fields(object.fields(), ty.name(), schema, paths),
-        TypeDefinition::Interface(interface) => patch_fields(interface.fields(), ty.name(), schema, paths),
-        TypeDefinition::Union(union) => patch_union(union.members(), ty.name(), schema, paths),
-        TypeDefinition::Enum(r#enum) => patch_enum_values(r#enum.values(), ty.name(), schema, paths),
-        TypeDefinition::InputObject(input_object) => {
-            patch_input_object(input_object.fields(), ty.name(), schema, paths)
+        TypeDefinition::Union(_) => schema.push_str(&body),
+        // There are no empty braces in GraphQL.
+        _ if body.is_empty() => (),
+        _ => {
+            schema.push_str(" {\n");
+            schema.push_str(&body);
+            schema.push('}');
         }
     }
 
@@ -84,11 +110,10 @@ pub(super) fn patch_type_definition<T: AsRef<str>>(
 fn patch_input_object<'a, T: AsRef<str>>(
     fields: impl Iterator<Item = InputValueDefinition<'a>>,
     parent: &str,
+    is_first: bool,
     schema: &mut String,
     paths: &Paths<'a, T>,
 ) {
-    schema.push_str(" {\n");
-
     let mut removed_fields = Vec::new();
     let mut changed_field_types = Vec::new();
 
@@ -102,11 +127,12 @@ fn patch_input_object<'a, T: AsRef<str>>(
                 let field_name = change.second_level().expect("RemoveField without field name");
                 removed_fields.push(field_name);
             }
-            ChangeKind::AddField => {
+            ChangeKind::AddField if is_first => {
                 schema.push_str(INDENTATION);
                 schema.push_str(change.resolved_str().trim());
                 schema.push('\n');
             }
+            ChangeKind::AddField => (), // already handled
             kind => {
                 debug_assert!(false, "Unhandled change at `{path}`: {kind:?}", path = change.path())
             }
@@ -120,6 +146,13 @@ fn patch_input_object<'a, T: AsRef<str>>(
             continue;
         }
 
+        if let Some(description) = field.description() {
+            let span = description.span();
+            schema.push_str(INDENTATION);
+            schema.push_str(&paths.source()[span.start..span.end]);
+            schema.push('\n');
+        }
+
         schema.push_str(INDENTATION);
         schema.push_str(field.name());
 
@@ -131,28 +164,32 @@ fn patch_input_object<'a, T: AsRef<str>>(
             schema.push_str(&field.ty().to_string());
         }
 
+        if field.default_value().is_some() {
+            schema.push(' ');
+            let span = field.default_value_span();
+            schema.push_str(&paths.source()[span.start..span.end]);
+        }
+
         patch_directives(field.directives(), schema, paths);
 
         schema.push('\n');
     }
-
-    schema.push('}');
 }
 
 fn patch_fields<'a, T>(
     fields: impl Iterator<Item = FieldDefinition<'a>>,
     parent: &str,
+    is_first: bool,
     schema: &mut String,
     paths: &Paths<'_, T>,
 ) where
     T: AsRef<str>,
 {
-    schema.push_str(" {\n");
-
     let mut changed_field_types = Vec::new();
     let mut removed_fields = Vec::new();
     let mut removed_arguments = Vec::new();
     let mut added_arguments = Vec::new();
+    let mut changed_arguments = Vec::new();
 
     for change in paths.iter_second_level(parent) {
         match change.kind() {
@@ -164,11 +201,12 @@ fn patch_fields<'a, T>(
                 let field_name = change.second_level().expect("RemoveField without field name");
                 removed_fields.push(field_name);
             }
-            ChangeKind::AddField => {
+            ChangeKind::AddField if is_first => {
                 schema.push_str(INDENTATION);
                 schema.push_str(change.resolved_str().trim());
                 schema.push('\n');
             }
+            ChangeKind::AddField => (), // already handled
             ChangeKind::AddInterfaceImplementation | ChangeKind::RemoveInterfaceImplementation => (), // already handled
             ChangeKind::AddFieldArgument => {
                 added_arguments.push((
@@ -179,6 +217,12 @@ fn patch_fields<'a, T>(
             ChangeKind::RemoveFieldArgument => {
                 removed_arguments.push(change.second_and_third_level());
             }
+            ChangeKind::ChangeFieldArgumentType
+            | ChangeKind::AddFieldArgumentDefault
+            | ChangeKind::ChangeFieldArgumentDefault
+            | ChangeKind::RemoveFieldArgumentDefault => {
+                changed_arguments.push((change.second_and_third_level(), change.kind(), change.resolved_str()));
+            }
             kind => {
                 debug_assert!(false, "Unhandled change at `{path}`: {kind:?}", path = change.path())
             }
@@ -187,8 +231,6 @@ fn patch_fields<'a, T>(
 
     removed_fields.sort_unstable();
 
-    let mut added_arguments_for_field = Vec::new();
-
     for field in fields {
         if removed_fields.binary_search(&field.name()).is_ok() {
             continue;
@@ -204,49 +246,21 @@ fn patch_fields<'a, T>(
         schema.push_str(INDENTATION);
         schema.push_str(field.name());
 
-        let mut arguments = field
+        let added = added_arguments
+            .iter()
+            .filter(|(field_name, _)| *field_name == field.name())
+            .map(|(_, full_argument)| trim_trivia(full_argument).to_owned());
+
+        let kept = field
             .arguments()
             .filter(|argument| !removed_arguments.contains(&[field.name(), argument.name()]))
-            .peekable();
+            .map(|argument| patch_argument(argument, field.name(), &changed_arguments, paths));
 
-        added_arguments_for_field.clear();
-        added_arguments_for_field.extend(
-            added_arguments
-                .iter()
-                .filter(|(field_name, _)| *field_name == field.name()),
-        );
+        let arguments: Vec<String> = added.chain(kept).collect();
 
-        if arguments.peek().is_some() || !added_arguments_for_field.is_empty() {
+        if !arguments.is_empty() {
             schema.push('(');
-
-            for (_, full_argument) in &added_arguments_for_field {
-                schema.push_str(full_argument);
-            }
-
-            while let Some(argument) = arguments.next() {
-                if let Some(description) = argument.description() {
-                    let span = description.span();
-                    schema.push_str(&paths.source()[span.start..span.end]);
-                    schema.push(' ');
-                }
-
-                schema.push_str(argument.name());
-                schema.push_str(": ");
-                schema.push_str(&argument.ty().to_string());
-
-                if argument.default_value().is_some() {
-                    schema.push(' ');
-                    let span = argument.default_value_span();
-                    schema.push_str(&paths.source()[span.start..span.end]);
-                }
-
-                patch_directives(argument.directives(), schema, paths);
-
-                if arguments.peek().is_some() {
-                    schema.push_str(", ");
-                }
-            }
-
+            schema.push_str(&arguments.join(", "));
             schema.push(')');
         }
 
@@ -262,13 +276,103 @@ fn patch_fields<'a, T>(
 
         schema.push('\n');
     }
+}
 
-    schema.push('}');
+fn patch_argument<T: AsRef<str>>(
+    argument: InputValueDefinition<'_>,
+    field_name: &str,
+    changes: &[([&str; 2], ChangeKind, &str)],
+    paths: &Paths<'_, T>,
+) -> String {
+    let mut rendered = String::new();
+    let mut ty = argument.ty().to_string();
+    let mut default_value = argument.default_value().map(|_| {
+        let span = argument.default_value_span();
+        &paths.source()[span.start..span.end]
+    });
+
+    for (path, kind, resolved_str) in changes {
+        if *path != [field_name, argument.name()] {
+            continue;
+        }
+
+        match kind {
+            ChangeKind::ChangeFieldArgumentType => ty = trim_trivia(resolved_str).to_owned(),
+            ChangeKind::RemoveFieldArgumentDefault => default_value = None,
+            _ => default_value = Some(*resolved_str),
+        }
+    }
+
+    if let Some(description) = argument.description() {
+        let span = description.span();
+        rendered.push_str(&paths.source()[span.start..span.end]);
+        rendered.push(' ');
+    }
+
+    rendered.push_str(argument.name());
+    rendered.push_str(": ");
+    rendered.push_str(&ty);
+
+    if let Some(default_value) = default_value {
+        rendered.push(' ');
+        rendered.push_str(trim_trivia(default_value));
+    }
+
+    patch_directives(argument.directives(), &mut rendered, paths);
+
+    rendered
+}
+
+/// The input without the whitespace, commas and comments that follow its last token.
+fn trim_trivia(input: &str) -> &str {
+    let mut end = 0;
+    let mut start = 0;
+
+    while let Some(c) = input[start..].chars().next() {
+        let rest = &input[start..];
+
+        let len = match c {
+            '#' => {
+                start += rest.find(['\n', '\r']).unwrap_or(rest.len());
+                continue;
+            }
+            c if c.is_whitespace() || c == ',' || c == '\u{feff}' => {
+                start += c.len_utf8();
+                continue;
+            }
+            '"' => string_len(rest),
+            c => c.len_utf8(),
+        };
+
+        start += len;
+        end = start;
+    }
+
+    &input[..end]
+}
+
+/// The length of the string literal the input starts with.
+fn string_len(input: &str) -> usize {
+    let delimiter = if input.starts_with("\"\"\"") { "\"\"\"" } else { "\"" };
+    let mut escaped = false;
+
+    for (idx, c) in input.char_indices().skip(delimiter.len()) {
+        if escaped {
+            escaped = false;
+        } else if c == '\\' {
+            escaped = true;
+        } else if input[idx..].starts_with(delimiter) {
+            return idx + delimiter.len();
+        }
+    }
+
+    input.len()
 }
 
 fn patch_enum_values<'a, T>(
     values: impl Iterator<Item = EnumValueDefinition<'a>>,
     enum_name: &str,
+    is_first: bool,
     schema: &mut String,
     paths: &Paths<'a, T>,
 ) where
@@ -276,15 +380,14 @@ fn patch_enum_values<'a, T>(
 {
     let mut removed_enum_values = Vec::new();
 
-    schema.push_str(" {\n");
-
     for change in paths.iter_second_level(enum_name) {
         match change.kind() {
-            ChangeKind::AddEnumValue => {
+            ChangeKind::AddEnumValue if is_first => {
                 schema.push_str(INDENTATION);
                 schema.push_str(change.resolved_str().trim());
                 schema.push('\n');
             }
+            ChangeKind::AddEnumValue => (), // already handled
             ChangeKind::RemoveEnumValue => {
                 let value = change.second_level().expect("RemoveEnumValue without value");
                 removed_enum_values.push(value);
@@ -302,6 +405,13 @@ fn patch_enum_values<'a, T>(
             continue;
         }
 
+        if let Some(description) = value.description() {
+            let span = description.span();
+            schema.push_str(INDENTATION);
+            schema.push_str(&paths.source()[span.start..span.end]);
+            schema.push('\n');
+        }
+
         schema.push_str(INDENTATION);
         schema.push_str(value.value());
 
@@ -309,13 +419,12 @@ fn patch_enum_values<'a, T>(
 
         schema.push('\n');
     }
-
-    schema.push('}');
 }
 
 fn patch_union<'a, T>(
     members: impl Iterator<Item = UnionMember<'a>>,
     union_name: &str,
+    is_first: bool,
     schema: &mut String,
     paths: &Paths<'a, T>,
 ) where
@@ -326,6 +435,7 @@ fn patch_union<'a, T>(
 
     for change in paths.iter_second_level(union_name) {
         match change.kind() {
+            ChangeKind::AddUnionMember if !is_first => (), // already handled
             ChangeKind::AddUnionMember => {
                 added_members.push(change.second_level().expect("AddUnionMember without member name"))
             }
-- 
2.43.0


From 9a6cc9535dd01badc8b0408aafc3fe368a7cc167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:18 +0000
Subject: [PATCH 05/86] fix: reject field and argument types with different
 list depths in composition

---
 .../src/subgraphs/field_types.rs                | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/crates/graphql-composition/src/subgraphs/field_types.rs b/crates/graphql-composition/src/subgraphs/field_types.rs
index 5e33db1..283307c 100644
--- a/crates/graphql-composition/src/subgraphs/field_types.rs
+++ b/crates/graphql-composition/src/subgraphs/field_types.rs
@@ -33,9 +33,15 @@ impl FieldType {
             return None;
         }
 
-        let mut self_wrappers = self.wrapping.list_wrappings();
-        let mut other_wrappers = other.wrapping.list_wrappings();
-        let mut zipped_wrappers = (&mut self_wrappers).zip(&mut other_wrappers).peekable();
+        let self_wrappers = self.wrapping.list_wrappings();
+        let other_wrappers = other.wrapping.list_wrappings();
+
+        // The wrappers should have the same level of nesting.
+        if self_wrappers.len() != other_wrappers.len() {
+            return None;
+        }
+
+        let mut zipped_wrappers = self_wrappers.zip(other_wrappers).peekable();
 
         // Check that the inner requiredness matches if there are wrappers.
         if zipped_wrappers.peek().is_some() && (self.inner_is_required() != other.inner_is_required()) {
@@ -44,11 +50,6 @@ impl FieldType {
 
         while let Some((self_wrapper, other_wrapper)) = zipped_wrappers.next() {
             if zipped_wrappers.peek().is_none() {
-                // The wrappers should have the same level of nesting.
-                if self_wrappers.next().is_some() || other_wrappers.next().is_some() {
-                    return None;
-                }
-
                 // We reached the outermost list wrappers: return which is required.
                 return Some(matches!(other_wrapper, ListWrapping::ListNonNull));
             }
-- 
2.43.0


From c160181453f05fd8f17b9fc148e9fb12e6a0526f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:02 +0000
Subject: [PATCH 06/86] fix: reject definitions with the same name and
 different kinds in composition

---
 crates/graphql-composition/src/compose.rs | 43 ++++++++++++++---------
 1 file changed, 27 insertions(+), 16 deletions(-)

diff --git a/crates/graphql-composition/src/compose.rs b/crates/graphql-composition/src/compose.rs
index c725251..ce133cb 100644
--- a/crates/graphql-composition/src/compose.rs
+++ b/crates/graphql-composition/src/compose.rs
@@ -35,7 +35,25 @@ pub(crate) fn compose_subgraphs(ctx: &mut Context<'_>) {
             return;
         };
 
-        if entity_interface::is_entity_interface(ctx.subgraphs, definitions.iter().map(|def| def.id)) {
+        let is_entity_interface =
+            entity_interface::is_entity_interface(ctx.subgraphs, definitions.iter().map(|def| def.id));
+
+        if let Some(incompatible) = definitions
+            .iter()
+            .find(|definition| !kinds_can_be_merged(first.kind, definition.kind, is_entity_interface))
+        {
+            let first_kind = first.kind;
+            let second_kind = incompatible.kind;
+            let name = ctx.subgraphs[first.name].as_ref();
+            let first_subgraph = ctx.subgraphs[ctx.subgraphs.at(first.subgraph_id).name].as_ref();
+            let second_subgraph = ctx.subgraphs[ctx.subgraphs.at(incompatible.subgraph_id).name].as_ref();
+            ctx.diagnostics.push_composite_schemas_pre_merge_validation_error(format!(
+                "Cannot merge {first_kind:?} with {second_kind:?} (`{name}` in `{first_subgraph}` and `{second_subgraph}`)",
+            ), CompositeSchemasPreMergeValidationErrorCode::TypeKindMismatch);
+            return;
+        }
+
+        if is_entity_interface {
             return entity_interface::merge_entity_interface_definitions(ctx, *first, definitions);
         }
 
@@ -53,26 +71,19 @@ pub(crate) fn compose_subgraphs(ctx: &mut Context<'_>) {
     directive_definitions::compose_directive_definitions(ctx);
 }
 
+/// Definitions with the same name must have the same kind in all subgraphs, except for entity
+/// interfaces: they are interfaces in some subgraphs, and `@interfaceObject` objects in others.
+fn kinds_can_be_merged(first: DefinitionKind, other: DefinitionKind, is_entity_interface: bool) -> bool {
+    let can_be_entity_interface = |kind| matches!(kind, DefinitionKind::Interface | DefinitionKind::Object);
+
+    first == other || (is_entity_interface && can_be_entity_interface(first) && can_be_entity_interface(other))
+}
+
 fn merge_object_definitions<'a>(ctx: &mut Context<'a>, first: &DefinitionView<'a>, definitions: &[DefinitionView<'a>]) {
     let is_shareable = definitions
         .iter()
         .any(|definition| definition.directives.shareable(ctx.subgraphs));
 
-    if let Some(incompatible) = definitions
-        .iter()
-        .find(|definition| definition.kind != DefinitionKind::Object)
-    {
-        let first_kind = first.kind;
-        let second_kind = incompatible.kind;
-        let name = ctx.subgraphs[first.name].as_ref();
-        let first_subgraph = ctx.subgraphs[ctx.subgraphs.at(first.subgraph_id).name].as_ref();
-        let second_subgraph = ctx.subgraphs[ctx.subgraphs.at(incompatible.subgraph_id).name].as_ref();
-        ctx.diagnostics.push_composite_schemas_pre_merge_validation_error(format!(
-            "Cannot merge {first_kind:?} with {second_kind:?} (`{name}` in `{first_subgraph}` and `{second_subgraph}`)",
-        ), CompositeSchemasPreMergeValidationErrorCode::TypeKindMismatch);
-        return;
-    }
-
     let is_entity = validate_consistent_entityness(ctx, definitions);
 
     let description = definitions
-- 
2.43.0


From 864c647e756427371c2fc2850e4cfa4147c0d950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:05 +0000
Subject: [PATCH 07/86] fix: do not list @inaccessible union members in the API
 schema

---
 .../src/federated_graph/render_sdl/render_api_sdl.rs        | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/graphql-composition/src/federated_graph/render_sdl/render_api_sdl.rs b/crates/graphql-composition/src/federated_graph/render_sdl/render_api_sdl.rs
index d4d8f65..5e7a288 100644
--- a/crates/graphql-composition/src/federated_graph/render_sdl/render_api_sdl.rs
+++ b/crates/graphql-composition/src/federated_graph/render_sdl/render_api_sdl.rs
@@ -197,7 +197,11 @@ impl fmt::Display for Renderer<'_> {
             write_public_directives(f, &union.directives, graph)?;
             f.write_str(" =")?;
 
-            let mut members = union.members.iter().peekable();
+            let mut members = union
+                .members
+                .iter()
+                .filter(|member| !is_inaccessible(&graph.at(**member).directives))
+                .peekable();
 
             while let Some(member) = members.next() {
                 f.write_str(" ")?;
-- 
2.43.0


From 3707bc1d4910f7f53afcf914f4ed7c08a26170db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:19 +0000
Subject: [PATCH 08/86] fix: composition panics on field sets selecting fields
 of a builtin scalar

---
 crates/graphql-composition/src/validate/selection.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/crates/graphql-composition/src/validate/selection.rs b/crates/graphql-composition/src/validate/selection.rs
index 793194f..d3cc81a 100644
--- a/crates/graphql-composition/src/validate/selection.rs
+++ b/crates/graphql-composition/src/validate/selection.rs
@@ -225,10 +225,18 @@ fn validate_field_selection(
         return;
     }
 
-    let referenced_type = ctx
+    let Some(referenced_type) = ctx
         .subgraphs
         .definition_by_name_id(field.r#type.definition_name_id, on_definition.subgraph_id)
-        .expect("type is defined in subgraph");
+    else {
+        return ctx.diagnostics.push_fatal(format!(
+            "[{subgraph_name}] Error in @{directive_name} on {directive_path}: no selection is possible on {definition_name}.{field_name}, its type is {field_type}",
+            definition_name = ctx.subgraphs[on_definition.name],
+            field_name = ctx.subgraphs[field.name],
+            field_type = field.r#type.display(ctx.subgraphs),
+            directive_path = directive_path(),
+        ));
+    };
 
     for selection in &selection.subselection {
         validate_selection(
-- 
2.43.0


From c4a64d6d66e76ddc85518cb25f495661061e5aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:05 +0000
Subject: [PATCH 09/86] fix: composition panics on types that no subgraph
 defines

---
 crates/graphql-composition/src/lib.rs         |  4 +++
 .../graphql-composition/src/subgraphs/top.rs  | 16 ++++++++++++
 crates/graphql-composition/src/validate.rs    | 26 +++++++++++++++++++
 3 files changed, 46 insertions(+)

diff --git a/crates/graphql-composition/src/lib.rs b/crates/graphql-composition/src/lib.rs
index d0d4101..32329ca 100644
--- a/crates/graphql-composition/src/lib.rs
+++ b/crates/graphql-composition/src/lib.rs
@@ -56,6 +56,10 @@ pub fn compose(subgraphs: &mut Subgraphs) -> CompositionResult {
 
     compose_subgraphs(&mut context);
 
+    if !context.diagnostics.any_fatal() {
+        validate::validate_post_merge(&mut context);
+    }
+
     if context.diagnostics.any_fatal() {
         CompositionResult {
             federated_graph: None,
diff --git a/crates/graphql-composition/src/subgraphs/top.rs b/crates/graphql-composition/src/subgraphs/top.rs
index 9fc4ed9..8c82e89 100644
--- a/crates/graphql-composition/src/subgraphs/top.rs
+++ b/crates/graphql-composition/src/subgraphs/top.rs
@@ -8,6 +8,22 @@ impl Subgraphs {
             || subgraph.subscription_type == Some(definition)
     }
 
+    /// Whether the composed graph can have a type with this name.
+    pub(crate) fn is_defined(&self, name: StringId) -> bool {
+        let name_str = self[name].as_ref();
+
+        BUILTIN_SCALARS.contains(&name_str)
+            || self.subgraphs.iter().any(|subgraph| match name_str {
+                "Query" => subgraph.query_type.is_some(),
+                "Mutation" => subgraph.mutation_type.is_some(),
+                "Subscription" => subgraph.subscription_type.is_some(),
+                _ => false,
+            })
+            || self
+                .iter_definitions_with_name(name)
+                .any(|(subgraph_id, definition_id)| !self.is_root_type(subgraph_id, definition_id))
+    }
+
     pub(crate) fn iter_subgraphs(&self) -> impl ExactSizeIterator<Item = View<'_, SubgraphId, Subgraph>> {
         self.subgraphs
             .iter()
diff --git a/crates/graphql-composition/src/validate.rs b/crates/graphql-composition/src/validate.rs
index fa5678f..d724c4f 100644
--- a/crates/graphql-composition/src/validate.rs
+++ b/crates/graphql-composition/src/validate.rs
@@ -19,6 +19,32 @@ pub(crate) fn validate_pre_merge(ctx: &mut ValidateContext<'_>) {
     directives::validate(ctx);
 }
 
+/// Post-composition validations happen here, when no other error was found.
+pub(crate) fn validate_post_merge(ctx: &mut ValidateContext<'_>) {
+    for field in ctx.subgraphs.iter_fields() {
+        if !ctx.subgraphs.is_defined(field.r#type.definition_name_id) {
+            ctx.diagnostics.push_fatal(format!(
+                "The type `{}` of the field {}.{} is not defined in any subgraph.",
+                ctx.subgraphs[field.r#type.definition_name_id],
+                ctx.subgraphs[ctx.subgraphs.at(field.parent_definition_id).name],
+                ctx.subgraphs[field.name],
+            ));
+        }
+    }
+
+    for argument in ctx.subgraphs.iter_output_field_arguments() {
+        if !ctx.subgraphs.is_defined(argument.r#type.definition_name_id) {
+            ctx.diagnostics.push_fatal(format!(
+                "The type `{}` of the argument {}.{}({}:) is not defined in any subgraph.",
+                ctx.subgraphs[argument.r#type.definition_name_id],
+                ctx.subgraphs[ctx.subgraphs.at(argument.parent_definition_id).name],
+                ctx.subgraphs[argument.parent_field_name],
+                ctx.subgraphs[argument.name],
+            ));
+        }
+    }
+}
+
 fn validate_root_nonempty(ctx: &mut ValidateContext<'_>) {
     if ctx.subgraphs.iter_subgraphs().all(|subgraph| {
         subgraph.query_type.is_none() && subgraph.mutation_type.is_none() && subgraph.subscription_type.is_none()
-- 
2.43.0


From a0a308a06a0c474e8aa50b030cdf0404735d6ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:52 +0000
Subject: [PATCH 10/86] fix: composition rejects valid arguments in field sets

---
 .../src/validate/selection.rs                 | 25 +++++++++++++++----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/crates/graphql-composition/src/validate/selection.rs b/crates/graphql-composition/src/validate/selection.rs
index d3cc81a..4fd1278 100644
--- a/crates/graphql-composition/src/validate/selection.rs
+++ b/crates/graphql-composition/src/validate/selection.rs
@@ -258,9 +258,27 @@ fn argument_type_matches(
 ) -> bool {
     let arg_type_name = ctx.subgraphs[arg_type.definition_name_id].as_ref();
 
+    let is_custom_scalar = ctx
+        .subgraphs
+        .definition_by_name_id(arg_type.definition_name_id, subgraph)
+        .is_some_and(|definition| ctx.subgraphs.at(definition).kind == subgraphs::DefinitionKind::Scalar);
+
     match value {
-        subgraphs::Value::String(_) if arg_type_name == "String" => true,
-        subgraphs::Value::Int(_) if arg_type_name == "Int" => true,
+        subgraphs::Value::Null => !arg_type.is_required(),
+        subgraphs::Value::List(inner) if arg_type.is_list() => {
+            let item_type = subgraphs::FieldType {
+                wrapping: arg_type.wrapping.without_list().unwrap_or(arg_type.wrapping),
+                ..*arg_type
+            };
+
+            inner
+                .iter()
+                .all(|inner| argument_type_matches(ctx, subgraph, &item_type, inner))
+        }
+        // The values accepted by a custom scalar are unknown.
+        _ if is_custom_scalar => true,
+        subgraphs::Value::String(_) if matches!(arg_type_name, "String" | "ID") => true,
+        subgraphs::Value::Int(_) if matches!(arg_type_name, "Int" | "Float" | "ID") => true,
         subgraphs::Value::Float(_) if arg_type_name == "Float" => true,
         subgraphs::Value::Boolean(_) if arg_type_name == "Boolean" => true,
         subgraphs::Value::Enum(value) => {
@@ -289,9 +307,6 @@ fn argument_type_matches(
                 argument_type_matches(ctx, subgraph, &inner_field.r#type, field_value)
             })
         }
-        subgraphs::Value::List(inner) if arg_type.is_list() => inner
-            .iter()
-            .all(|inner| argument_type_matches(ctx, subgraph, arg_type, inner)),
         _ => false,
     }
 }
-- 
2.43.0


From b276cd33752a3073d66a1218f57fdb2625b969e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:49 +0000
Subject: [PATCH 11/86] fix: fields of a root type with a custom name refer to
 the composed root type

---
 .../graphql-composition/src/ingest_subgraph/fields.rs  |  8 +++++++-
 .../src/ingest_subgraph/schema_definitions.rs          | 10 ++++++++++
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/crates/graphql-composition/src/ingest_subgraph/fields.rs b/crates/graphql-composition/src/ingest_subgraph/fields.rs
index 920168c..b58d7a4 100644
--- a/crates/graphql-composition/src/ingest_subgraph/fields.rs
+++ b/crates/graphql-composition/src/ingest_subgraph/fields.rs
@@ -95,7 +95,13 @@ pub(super) fn ingest_fields(
             .description()
             .map(|description| ctx.subgraphs.strings.intern(description.to_cow()));
 
-        let field_type = ctx.subgraphs.intern_field_type(field.ty());
+        let mut field_type = ctx.subgraphs.intern_field_type(field.ty());
+
+        // The root types of all subgraphs are merged under their default name.
+        if let Some(root_name) = ctx.root_type_matcher.default_root_name(field.ty().name()) {
+            field_type.definition_name_id = ctx.subgraphs.strings.intern(root_name);
+        }
+
         let directives = ctx.subgraphs.new_directive_site();
         let field_name_id = ctx.subgraphs.strings.intern(field_name);
 
diff --git a/crates/graphql-composition/src/ingest_subgraph/schema_definitions.rs b/crates/graphql-composition/src/ingest_subgraph/schema_definitions.rs
index b705ee9..28fb5a4 100644
--- a/crates/graphql-composition/src/ingest_subgraph/schema_definitions.rs
+++ b/crates/graphql-composition/src/ingest_subgraph/schema_definitions.rs
@@ -154,6 +154,16 @@ impl RootTypeMatcher<'_> {
         matches!(self.match_name(name), RootTypeMatch::Query)
     }
 
+    /// The name in the federated graph of the root type named `name` in the subgraph.
+    pub(crate) fn default_root_name(&self, name: &str) -> Option<&'static str> {
+        match self.match_name(name) {
+            RootTypeMatch::Query => Some("Query"),
+            RootTypeMatch::Mutation => Some("Mutation"),
+            RootTypeMatch::Subscription => Some("Subscription"),
+            RootTypeMatch::NotRootButHasDefaultRootName | RootTypeMatch::NotRoot => None,
+        }
+    }
+
     pub(crate) fn match_name(&self, name: &str) -> RootTypeMatch {
         for (name_from_definition, default_name, match_case) in [
             (self.query, "Query", RootTypeMatch::Query),
-- 
2.43.0


From c2d9091ed2d16df8669874d1595c54792f5eb89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:07 +0000
Subject: [PATCH 12/86] fix: reject input objects without common fields in
 composition

---
 crates/graphql-composition/src/compose/input_object.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/graphql-composition/src/compose/input_object.rs b/crates/graphql-composition/src/compose/input_object.rs
index e08f276..4e74c0e 100644
--- a/crates/graphql-composition/src/compose/input_object.rs
+++ b/crates/graphql-composition/src/compose/input_object.rs
@@ -25,6 +25,13 @@ pub(super) fn merge_input_object_definitions(
         })
         .collect();
 
+    if intersection.is_empty() {
+        ctx.diagnostics.push_fatal(format!(
+            "Fields for input object {} are empty (intersection)",
+            ctx.subgraphs[first.name],
+        ));
+    }
+
     let mut all_fields: Vec<_> = definitions
         .iter()
         .flat_map(|def| def.id.fields(ctx.subgraphs))
-- 
2.43.0


From 5a9ff4eb8acc531877d83f363c1e3f54b20ff9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:07 +0000
Subject: [PATCH 13/86] fix: do not render the description of a builtin scalar
 without its definition

---
 .../federated_graph/render_sdl/render_federated_sdl.rs    | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/graphql-composition/src/federated_graph/render_sdl/render_federated_sdl.rs b/crates/graphql-composition/src/federated_graph/render_sdl/render_federated_sdl.rs
index a96cd89..15aeb9f 100644
--- a/crates/graphql-composition/src/federated_graph/render_sdl/render_federated_sdl.rs
+++ b/crates/graphql-composition/src/federated_graph/render_sdl/render_federated_sdl.rs
@@ -18,14 +18,14 @@ pub fn render_federated_sdl(graph: &FederatedGraph) -> Result<String, fmt::Error
         for scalar in graph.iter_scalar_definitions() {
             let namespace = scalar.namespace.map(|namespace| &graph[namespace]);
             let name = scalar.then(|scalar| scalar.name).as_str();
-            if let Some(description) = scalar.description {
-                Description(&graph[description], "").fmt(f)?;
-            }
-
             if BUILTIN_SCALARS.contains(&name) {
                 continue;
             }
 
+            if let Some(description) = scalar.description {
+                Description(&graph[description], "").fmt(f)?;
+            }
+
             f.write_str("scalar ")?;
 
             if let Some(namespace) = namespace {
-- 
2.43.0


From cca0b9f4f1ce16f8a14c1f28eac81f857c2144a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:40 +0000
Subject: [PATCH 14/86] fix: keep the description of root types in composition

---
 crates/graphql-composition/src/compose/roots.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/graphql-composition/src/compose/roots.rs b/crates/graphql-composition/src/compose/roots.rs
index d8839a4..e5bdf42 100644
--- a/crates/graphql-composition/src/compose/roots.rs
+++ b/crates/graphql-composition/src/compose/roots.rs
@@ -46,7 +46,12 @@ fn merge_fields<'a>(
     let type_name = ctx.insert_static_str(root);
     let directives = collect_composed_directives(definitions.iter().map(|def| def.directives), ctx);
 
-    let object_id = ctx.insert_object(type_name, None, directives);
+    let description = definitions
+        .iter()
+        .find_map(|def| def.description)
+        .map(|desc| ctx.subgraphs[desc].as_ref());
+
+    let object_id = ctx.insert_object(type_name, description, directives);
 
     if let "Subscription" = root {
         for definition in definitions {
-- 
2.43.0


From 848a485d2c96ee106c503ee25ac92c3d791e974d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:53 +0000
Subject: [PATCH 15/86] fix: composition panics on field sets with arguments
 that are not composed

---
 .../src/validate/selection.rs                    | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/crates/graphql-composition/src/validate/selection.rs b/crates/graphql-composition/src/validate/selection.rs
index 4fd1278..3c93ad8 100644
--- a/crates/graphql-composition/src/validate/selection.rs
+++ b/crates/graphql-composition/src/validate/selection.rs
@@ -210,6 +210,22 @@ fn validate_field_selection(
             ));
         };
 
+        // Arguments that are not defined in all subgraphs are not part of the composed field.
+        let defined_in_all_subgraphs = ctx
+            .subgraphs
+            .iter_definitions_with_name(on_definition.name)
+            .filter_map(|(_, definition)| definition.field_by_name(ctx.subgraphs, selection.field))
+            .all(|field| field.argument_by_name(ctx.subgraphs, *argument_name).is_some());
+
+        if !defined_in_all_subgraphs {
+            return ctx.diagnostics.push_fatal(format!(
+                "[{subgraph_name}] Error in @{directive_name} on {directive_path}: the {field_in_selection}.{argument_name} argument is not defined in all subgraphs",
+                argument_name = ctx.subgraphs[*argument_name],
+                field_in_selection = ctx.subgraphs[field.name],
+                directive_path = directive_path(),
+            ));
+        }
+
         if !argument_type_matches(ctx, on_definition.subgraph_id, &argument.r#type, argument_value) {
             return ctx.diagnostics.push_fatal(format!(
                 "[{subgraph_name}] Error in @{directive_name} on {directive_path}: the {field_in_selection}.{argument_name} argument does not not match the expected type ({expected_type})",
-- 
2.43.0


From efd285ee2d656a1cc59731c98e738a505f8c47e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:02 +0000
Subject: [PATCH 16/86] fix: reject subgraphs that override the same field from
 each other

---
 .../src/compose/validate.rs                   | 40 +++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/crates/graphql-composition/src/compose/validate.rs b/crates/graphql-composition/src/compose/validate.rs
index 6ed3225..1604188 100644
--- a/crates/graphql-composition/src/compose/validate.rs
+++ b/crates/graphql-composition/src/compose/validate.rs
@@ -44,6 +44,8 @@ pub(super) fn override_source_has_override(fields: &[subgraphs::FieldView<'_>],
         }
     }
 
+    validate_override_cycles(fields, ctx);
+
     for (source, entry) in overrides_by_source {
         if let OverrideEntry::Multiple(overriding_fields) = entry {
             let field_name = ctx.subgraphs[overriding_fields[0].name].as_ref();
@@ -87,6 +89,44 @@ pub(super) fn override_source_has_override(fields: &[subgraphs::FieldView<'_>],
     }
 }
 
+/// Subgraphs that override the same field from each other would leave it without any source.
+fn validate_override_cycles(fields: &[subgraphs::FieldView<'_>], ctx: &mut Context<'_>) {
+    let subgraph_name = |field: &subgraphs::FieldView<'_>| {
+        let parent_definition = ctx.subgraphs.at(field.parent_definition_id);
+        ctx.subgraphs.at(parent_definition.subgraph_id).name
+    };
+
+    let override_source = |field: &subgraphs::FieldView<'_>| -> Option<subgraphs::FieldView<'_>> {
+        let from = field.directives.r#override(ctx.subgraphs)?.from;
+        fields
+            .iter()
+            .find(|field| subgraph_name(field) == from)
+            .filter(|source| source.id != field.id)
+            .copied()
+    };
+
+    for field in fields {
+        let is_cyclic = std::iter::successors(override_source(field), override_source)
+            .take(fields.len())
+            .any(|source| source.id == field.id);
+
+        if is_cyclic {
+            let message = format!(
+                r#"The @override directive on field "{}.{}" in subgraph {} overrides a field that is overridden from that subgraph."#,
+                ctx.subgraphs[ctx.subgraphs.at(field.parent_definition_id).name],
+                ctx.subgraphs[field.name],
+                ctx.subgraphs[subgraph_name(field)],
+            );
+
+            ctx.diagnostics.push_composite_schemas_pre_merge_validation_error(
+                message,
+                CompositeSchemasPreMergeValidationErrorCode::OverrideSourceHasOverride,
+            );
+            return;
+        }
+    }
+}
+
 fn format_subgraph_list(ctx: &mut Context<'_>, fields: &[subgraphs::FieldView<'_>]) -> String {
     match fields {
         [] => String::new(),
-- 
2.43.0


From c1d3353c501886187eba810413959ffa1e757c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:05 +0000
Subject: [PATCH 17/86] fix: composition ignores @cost and @listSize imported
 from the federation specification

---
 .../src/ingest_subgraph/directives/match_name.rs                | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/graphql-composition/src/ingest_subgraph/directives/match_name.rs b/crates/graphql-composition/src/ingest_subgraph/directives/match_name.rs
index bcf98a1..892da04 100644
--- a/crates/graphql-composition/src/ingest_subgraph/directives/match_name.rs
+++ b/crates/graphql-composition/src/ingest_subgraph/directives/match_name.rs
@@ -146,11 +146,13 @@ fn match_federation_directive_by_original_name(original_name: &str) -> Directive
     match original_name {
         AUTHENTICATED => DirectiveNameMatch::Authenticated,
         COMPOSE_DIRECTIVE => DirectiveNameMatch::ComposeDirective,
+        COST => DirectiveNameMatch::Cost,
         EXTENDS => DirectiveNameMatch::Extends,
         EXTERNAL => DirectiveNameMatch::External,
         INACCESSIBLE => DirectiveNameMatch::Inaccessible,
         INTERFACE_OBJECT => DirectiveNameMatch::InterfaceObject,
         KEY => DirectiveNameMatch::Key,
+        LIST_SIZE => DirectiveNameMatch::ListSize,
         OVERRIDE => DirectiveNameMatch::Override,
         POLICY => DirectiveNameMatch::Policy,
         PROVIDES => DirectiveNameMatch::Provides,
-- 
2.43.0


From d9c629d0821c7a11328e56d359fde2315880f405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:29 +0000
Subject: [PATCH 18/86] fix: escape control characters in rendered SDL strings
 with hexadecimal digits

---
 .../src/federated_graph/render_sdl/display_utils.rs             | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/graphql-composition/src/federated_graph/render_sdl/display_utils.rs b/crates/graphql-composition/src/federated_graph/render_sdl/display_utils.rs
index 951a624..d92978b 100644
--- a/crates/graphql-composition/src/federated_graph/render_sdl/display_utils.rs
+++ b/crates/graphql-composition/src/federated_graph/render_sdl/display_utils.rs
@@ -37,7 +37,7 @@ pub(crate) fn display_graphql_string_literal(string: &str, f: &mut fmt::Formatte
             '\t' => f.write_str("\\t"),
             '\\' => f.write_str("\\\\"),
             '"' => f.write_str("\\\""),
-            c if c.is_control() => write!(f, "\\u{:04}", c as u32),
+            c if c.is_control() => write!(f, "\\u{:04x}", c as u32),
             c => f.write_char(c),
         }?
     }
-- 
2.43.0


From b6bbf1dd071282f319ceef8ee61b78b373d64782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:29 +0000
Subject: [PATCH 19/86] fix: report @key fields that are no selection set

---
 crates/graphql-composition/src/ingest_subgraph/directives.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/graphql-composition/src/ingest_subgraph/directives.rs b/crates/graphql-composition/src/ingest_subgraph/directives.rs
index ae660d9..a76f38a 100644
--- a/crates/graphql-composition/src/ingest_subgraph/directives.rs
+++ b/crates/graphql-composition/src/ingest_subgraph/directives.rs
@@ -324,7 +324,9 @@ pub(super) fn ingest_keys(
                     .and_then(|v| v.value().as_bool())
                     .unwrap_or(true); // defaults to true
 
-            ctx.subgraphs.push_key(definition_id, fields_arg, is_resolvable).ok();
+            if let Err(err) = ctx.subgraphs.push_key(definition_id, fields_arg, is_resolvable) {
+                ctx.subgraphs.push_ingestion_diagnostic(ctx.subgraph_id, err);
+            }
         }
     }
 }
-- 
2.43.0


From 316d2630d4cb9a751fd263454fdae3d8ed739f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:55 +0000
Subject: [PATCH 20/86] fix: keep float values floats in rendered SDL

---
 .../src/federated_graph/render_sdl/display_utils.rs            | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/graphql-composition/src/federated_graph/render_sdl/display_utils.rs b/crates/graphql-composition/src/federated_graph/render_sdl/display_utils.rs
index d92978b..9aa7b1e 100644
--- a/crates/graphql-composition/src/federated_graph/render_sdl/display_utils.rs
+++ b/crates/graphql-composition/src/federated_graph/render_sdl/display_utils.rs
@@ -96,7 +96,8 @@ impl fmt::Display for ValueDisplay<'_> {
             Value::Null => f.write_str("null"),
             Value::String(s) => display_graphql_string_literal(&graph[*s], f),
             Value::Int(i) => Display::fmt(i, f),
-            Value::Float(val) => Display::fmt(val, f),
+            // With the fractional part or the exponent, otherwise it reads as an integer.
+            Value::Float(val) => fmt::Debug::fmt(val, f),
             Value::UnboundEnumValue(val) => f.write_str(&graph[*val]),
             Value::EnumValue(val) => f.write_str(&graph[graph[*val].value]),
             Value::Boolean(true) => f.write_str("true"),
-- 
2.43.0


From ab57b3ee2b87888e8ccfab3822439211a1438da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:55 +0000
Subject: [PATCH 21/86] fix: render descriptions so that they read back
 unchanged

---
 .../render_sdl/display_utils.rs               | 31 +++++++++++++------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/crates/graphql-composition/src/federated_graph/render_sdl/display_utils.rs b/crates/graphql-composition/src/federated_graph/render_sdl/display_utils.rs
index 9aa7b1e..370b2af 100644
--- a/crates/graphql-composition/src/federated_graph/render_sdl/display_utils.rs
+++ b/crates/graphql-composition/src/federated_graph/render_sdl/display_utils.rs
@@ -68,17 +68,16 @@ impl fmt::Display for Description<'_> {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         let Description(description, indentation) = self;
 
-        writeln!(f, r#"{indentation}""""#)?;
-
-        let mut lines = description.lines().skip_while(|line| line.is_empty()).peekable();
-
-        while let Some(line) = lines.next() {
-            let line = line.trim();
+        if !can_be_block_string(description) {
+            f.write_str(indentation)?;
+            display_graphql_string_literal(description, f)?;
+            return f.write_char('\n');
+        }
 
-            if line.is_empty() && lines.peek().map(|next| next.is_empty()).unwrap_or(true) {
-                continue;
-            }
+        writeln!(f, r#"{indentation}""""#)?;
 
+        for line in description.lines() {
+            let line = line.replace(r#"""""#, r#"\""""#);
             writeln!(f, r#"{indentation}{line}"#)?;
         }
 
@@ -86,6 +85,20 @@ impl fmt::Display for Description<'_> {
     }
 }
 
+/// Block strings lose the leading and trailing blank lines and the common indentation of their contents.
+fn can_be_block_string(string: &str) -> bool {
+    let is_blank = |line: &str| line.trim().is_empty();
+
+    !string.chars().any(|c| c.is_control() && c != '\n' && c != '\t')
+        && !string.ends_with('\n')
+        && string.lines().next().is_none_or(|line| !is_blank(line))
+        && string.lines().last().is_none_or(|line| !is_blank(line))
+        && (string.is_empty()
+            || string
+                .lines()
+                .any(|line| !line.starts_with(char::is_whitespace) && !is_blank(line)))
+}
+
 pub(super) struct ValueDisplay<'a>(pub &'a Value, pub &'a FederatedGraph);
 
 impl fmt::Display for ValueDisplay<'_> {
-- 
2.43.0


From 8818b952d5fc5a62256f2c315d9f0c9115a5eeba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:40 +0000
Subject: [PATCH 22/86] fix: reject accessible elements of types that are
 @inaccessible in another subgraph, and input fields

---
 .../src/compose/input_object.rs               | 11 ++++++++++
 .../graphql-composition/src/compose/object.rs | 20 ++++++++-----------
 .../graphql-composition/src/subgraphs/top.rs  |  6 ++++++
 3 files changed, 25 insertions(+), 12 deletions(-)

diff --git a/crates/graphql-composition/src/compose/input_object.rs b/crates/graphql-composition/src/compose/input_object.rs
index 4e74c0e..f744088 100644
--- a/crates/graphql-composition/src/compose/input_object.rs
+++ b/crates/graphql-composition/src/compose/input_object.rs
@@ -73,6 +73,17 @@ pub(super) fn merge_input_object_definitions(
             continue;
         };
 
+        if fields
+            .iter()
+            .any(|field| ctx.subgraphs.is_inaccessible(field.r#type.definition_name_id))
+            && !fields.iter().any(|field| field.directives.inaccessible(ctx.subgraphs))
+        {
+            ctx.diagnostics.push_fatal(format!(
+                "The input field `{}.{}` is of an @inaccessible type, but is itself not marked as @inaccessible.",
+                ctx.subgraphs[first.name], ctx.subgraphs[field_name],
+            ));
+        }
+
         directives.extend(fields.iter().map(|field| {
             ir::Directive::JoinInputField(ir::JoinInputFieldDirective {
                 subgraph_id: ctx.subgraphs.at(field.parent_definition_id).subgraph_id.idx().into(),
diff --git a/crates/graphql-composition/src/compose/object.rs b/crates/graphql-composition/src/compose/object.rs
index 57d3bbe..30ea407 100644
--- a/crates/graphql-composition/src/compose/object.rs
+++ b/crates/graphql-composition/src/compose/object.rs
@@ -57,17 +57,9 @@ pub(super) fn merge_field_arguments<'a>(
         };
 
         let argument_is_inaccessible = || arguments.iter().any(|arg| arg.directives.inaccessible(ctx.subgraphs));
-        let argument_type_is_inaccessible = arguments.iter().any(|arg| {
-            let parent_definition = arg.parent_definition_id;
-            let subgraph_id = ctx.subgraphs.at(parent_definition).subgraph_id;
-            let arg_type = ctx
-                .subgraphs
-                .definition_by_name_id(arg.r#type.definition_name_id, subgraph_id);
-
-            arg_type
-                .map(|def| ctx.subgraphs.at(def).directives.inaccessible(ctx.subgraphs))
-                .unwrap_or(false)
-        });
+        let argument_type_is_inaccessible = arguments
+            .iter()
+            .any(|arg| ctx.subgraphs.is_inaccessible(arg.r#type.definition_name_id));
 
         if argument_type_is_inaccessible && !argument_is_inaccessible() {
             ctx.diagnostics.push_fatal(format!(
@@ -214,7 +206,11 @@ pub(super) fn compose_field<'a>(
                 )
                 .filter(|parent| ctx.subgraphs.at(*parent).directives.inaccessible(ctx.subgraphs))
                 .is_some()
-    }) {
+    }) || (fields
+        .iter()
+        .any(|field| ctx.subgraphs.is_inaccessible(field.r#type.definition_name_id))
+        && !fields.iter().any(|field| field.directives.inaccessible(ctx.subgraphs)))
+    {
         let name = format!(
             "{}.{}",
             ctx.subgraphs[ctx.subgraphs.at(first.parent_definition_id).name].as_ref(),
diff --git a/crates/graphql-composition/src/subgraphs/top.rs b/crates/graphql-composition/src/subgraphs/top.rs
index 8c82e89..9e090fc 100644
--- a/crates/graphql-composition/src/subgraphs/top.rs
+++ b/crates/graphql-composition/src/subgraphs/top.rs
@@ -24,6 +24,12 @@ impl Subgraphs {
                 .any(|(subgraph_id, definition_id)| !self.is_root_type(subgraph_id, definition_id))
     }
 
+    /// Whether any subgraph marks the type as @inaccessible.
+    pub(crate) fn is_inaccessible(&self, name: StringId) -> bool {
+        self.iter_definitions_with_name(name)
+            .any(|(_, definition_id)| self.at(definition_id).directives.inaccessible(self))
+    }
+
     pub(crate) fn iter_subgraphs(&self) -> impl ExactSizeIterator<Item = View<'_, SubgraphId, Subgraph>> {
         self.subgraphs
             .iter()
-- 
2.43.0


From f6dd58caca5cd976e30d2472113986553b10ecfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:20 +0000
Subject: [PATCH 23/86] fix: report duplicate enum values added by extensions
 instead of panicking

---
 crates/graphql-schema-validation/src/validate/enums.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/graphql-schema-validation/src/validate/enums.rs b/crates/graphql-schema-validation/src/validate/enums.rs
index 9810086..52f99e7 100644
--- a/crates/graphql-schema-validation/src/validate/enums.rs
+++ b/crates/graphql-schema-validation/src/validate/enums.rs
@@ -11,7 +11,7 @@ pub(crate) fn validate_enum_members<'a>(
     ctx.with_enum_values(type_name, &enm.values, |ctx, values| {
         let value_names = values.iter().map(|v| v.node.value.node.as_str());
         ctx.find_duplicates(value_names, |ctx, idx, _| {
-            let value_name = enm.values[idx].node.value.node.as_str();
+            let value_name = values[idx].node.value.node.as_str();
             ctx.push_error(miette::miette!(r#"Duplicate enum value "{type_name}.{value_name}""#));
         });
 
-- 
2.43.0


From d0c0050cc7e390737e521b15b1151598948e1fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:20 +0000
Subject: [PATCH 24/86] fix: reject enums without values and unions without
 members

---
 .../src/diagnostics/constructors.rs                  | 12 ++++++++++++
 .../graphql-schema-validation/src/validate/enums.rs  |  4 ++++
 .../graphql-schema-validation/src/validate/unions.rs |  4 ++++
 3 files changed, 20 insertions(+)

diff --git a/crates/graphql-schema-validation/src/diagnostics/constructors.rs b/crates/graphql-schema-validation/src/diagnostics/constructors.rs
index 5a18a7f..aac6ad5 100644
--- a/crates/graphql-schema-validation/src/diagnostics/constructors.rs
+++ b/crates/graphql-schema-validation/src/diagnostics/constructors.rs
@@ -44,3 +44,15 @@ pub(crate) fn empty_input_object(bad_input_object: &str, ctx: &mut Context<'_>)
         "The input object type {bad_input_object} has no fields. An input object type must define one or more fields."
     ))
 }
+
+pub(crate) fn empty_enum(bad_enum: &str, ctx: &mut Context<'_>) {
+    ctx.push_error(miette::miette!(
+        "The enum {bad_enum} has no values. An enum must define one or more values."
+    ))
+}
+
+pub(crate) fn empty_union(bad_union: &str, ctx: &mut Context<'_>) {
+    ctx.push_error(miette::miette!(
+        "The union {bad_union} has no members. A union must include one or more member types."
+    ))
+}
diff --git a/crates/graphql-schema-validation/src/validate/enums.rs b/crates/graphql-schema-validation/src/validate/enums.rs
index 52f99e7..169919f 100644
--- a/crates/graphql-schema-validation/src/validate/enums.rs
+++ b/crates/graphql-schema-validation/src/validate/enums.rs
@@ -9,6 +9,10 @@ pub(crate) fn validate_enum_members<'a>(
     validate_directives(&type_definition.node.directives, ast::DirectiveLocation::Enum, ctx);
 
     ctx.with_enum_values(type_name, &enm.values, |ctx, values| {
+        if values.is_empty() {
+            diagnostics::empty_enum(type_name, ctx);
+        }
+
         let value_names = values.iter().map(|v| v.node.value.node.as_str());
         ctx.find_duplicates(value_names, |ctx, idx, _| {
             let value_name = values[idx].node.value.node.as_str();
diff --git a/crates/graphql-schema-validation/src/validate/unions.rs b/crates/graphql-schema-validation/src/validate/unions.rs
index 2298843..baf49e5 100644
--- a/crates/graphql-schema-validation/src/validate/unions.rs
+++ b/crates/graphql-schema-validation/src/validate/unions.rs
@@ -26,6 +26,10 @@ pub(crate) fn validate_union_members<'a>(
     validate_directives(&type_definition.node.directives, ast::DirectiveLocation::Union, ctx);
 
     ctx.with_union_members(type_name, &union.members, |ctx, members| {
+        if members.is_empty() {
+            diagnostics::empty_union(type_name, ctx);
+        }
+
         for member in members {
             let member_name = member.node.as_str();
             match ctx.definition_names.get(member_name) {
-- 
2.43.0


From 76798d229fa22ae5ed7575539feb3b0c5f70ce57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:54 +0000
Subject: [PATCH 25/86] fix: validate interfaces together with their extensions

---
 .../graphql-schema-validation/src/context.rs  | 24 +++++++++++---
 .../graphql-schema-validation/src/validate.rs |  1 +
 .../src/validate/interface_implementers.rs    | 24 ++++++++++----
 .../src/validate/interfaces.rs                | 24 ++++----------
 .../src/validate/objects.rs                   | 24 +-------------
 .../src/validate/output_fields.rs             | 32 +++++++++++++++++++
 6 files changed, 76 insertions(+), 53 deletions(-)
 create mode 100644 crates/graphql-schema-validation/src/validate/output_fields.rs

diff --git a/crates/graphql-schema-validation/src/context.rs b/crates/graphql-schema-validation/src/context.rs
index 27e3cd9..d3497f6 100644
--- a/crates/graphql-schema-validation/src/context.rs
+++ b/crates/graphql-schema-validation/src/context.rs
@@ -112,7 +112,13 @@ impl<'a> Context<'a> {
     where
         F: FnMut(&mut Self, &[&'a AstField]),
     {
-        let all_fields: Vec<_> = base_fields
+        let all_fields = self.all_fields(name, base_fields);
+        handler(self, &all_fields);
+    }
+
+    /// All the fields of an object/interface: those of its declaration and those of its extensions.
+    pub(crate) fn all_fields(&self, name: &str, base_fields: &'a [AstField]) -> Vec<&'a AstField> {
+        base_fields
             .iter()
             .chain(
                 self.extended_fields
@@ -121,8 +127,7 @@ impl<'a> Context<'a> {
                     .flat_map(|fields| fields.iter())
                     .flat_map(|f| f.iter()),
             )
-            .collect();
-        handler(self, &all_fields);
+            .collect()
     }
 
     /// With an object/interface name and the object/interface `implements` list, iterate all these
@@ -134,14 +139,23 @@ impl<'a> Context<'a> {
         base_implements: &'a [Positioned<Name>],
         mut handler: impl FnMut(&mut Self, &[&'a Positioned<Name>]),
     ) {
+        let implements = self.all_implements(type_name, base_implements);
+        handler(self, &implements);
+    }
+
+    /// All the interfaces an object/interface implements, in its declaration or its extensions.
+    pub(crate) fn all_implements(
+        &self,
+        type_name: &str,
+        base_implements: &'a [Positioned<Name>],
+    ) -> Vec<&'a Positioned<Name>> {
         let extended = self
             .extended_interface_implementations
             .get(type_name)
             .into_iter()
             .flatten()
             .copied();
-        let implements: Vec<_> = base_implements.iter().chain(extended).collect();
-        handler(self, &implements);
+        base_implements.iter().chain(extended).collect()
     }
 
     pub(crate) fn miette_pos(&self, pos: async_graphql_parser::Pos) -> miette::SourceOffset {
diff --git a/crates/graphql-schema-validation/src/validate.rs b/crates/graphql-schema-validation/src/validate.rs
index 0fb456c..d9f3d52 100644
--- a/crates/graphql-schema-validation/src/validate.rs
+++ b/crates/graphql-schema-validation/src/validate.rs
@@ -8,6 +8,7 @@ mod interface_implementers;
 mod interfaces;
 mod object_field;
 mod objects;
+mod output_fields;
 mod output_types;
 mod scalars;
 mod schema_definition;
diff --git a/crates/graphql-schema-validation/src/validate/interface_implementers.rs b/crates/graphql-schema-validation/src/validate/interface_implementers.rs
index 74a0e29..08be8e4 100644
--- a/crates/graphql-schema-validation/src/validate/interface_implementers.rs
+++ b/crates/graphql-schema-validation/src/validate/interface_implementers.rs
@@ -42,15 +42,25 @@ pub(crate) fn validate_implements_list<'a>(
 
         match &ty.node.kind {
             ast::TypeKind::Interface(iface) => {
+                let iface_name = ty.node.name.node.as_str();
+                // The members of an interface that is only extended in this document are all in its extensions.
+                let (base_implements, base_fields) = if ty.node.extend {
+                    (&[][..], &[][..])
+                } else {
+                    (iface.implements.as_slice(), iface.fields.as_slice())
+                };
+                let iface_implements = ctx.all_implements(iface_name, base_implements);
+                let iface_fields = ctx.all_fields(iface_name, base_fields);
+
                 validate_implements_interface_transitively(
                     parent_name,
                     parent_implements,
-                    &ty.node.name.node,
-                    iface,
+                    iface_name,
+                    &iface_implements,
                     ctx,
                 );
 
-                validate_fields_implement_interface(parent_name, parent_fields, &ty.node.name.node, iface, ctx);
+                validate_fields_implement_interface(parent_name, parent_fields, iface_name, &iface_fields, ctx);
             }
             _ => ctx.push_error(miette::miette!(
                 r#""{parent_name}" cannot implement non-interface type "{}"."#,
@@ -64,13 +74,13 @@ fn validate_fields_implement_interface<'a>(
     implementer_name: &str,
     implementer_fields: &'a [Positioned<ast::FieldDefinition>],
     iface_name: &'a str,
-    iface: &'a ast::InterfaceType,
+    iface_fields: &[&'a Positioned<ast::FieldDefinition>],
     ctx: &mut Context<'a>,
 ) {
     let mut errs = Vec::new();
 
     ctx.with_fields(implementer_name, implementer_fields, |ctx, candidate_superset| {
-        for field in &iface.fields {
+        for field in iface_fields {
             let candidate_field = candidate_superset
                 .iter()
                 .find(|candidate| candidate.node.name.node == field.node.name.node);
@@ -251,10 +261,10 @@ fn validate_implements_interface_transitively<'a>(
     parent_name: &'a str,
     parent_implements: &[&'a Positioned<Name>],
     iface_name: &'a str,
-    iface: &'a ast::InterfaceType,
+    iface_implements: &[&'a Positioned<Name>],
     ctx: &mut Context<'a>,
 ) {
-    for iface_implements in &iface.implements {
+    for iface_implements in iface_implements {
         if !parent_implements
             .iter()
             .any(|obj_implements| obj_implements.node == iface_implements.node)
diff --git a/crates/graphql-schema-validation/src/validate/interfaces.rs b/crates/graphql-schema-validation/src/validate/interfaces.rs
index 494b9d4..343f161 100644
--- a/crates/graphql-schema-validation/src/validate/interfaces.rs
+++ b/crates/graphql-schema-validation/src/validate/interfaces.rs
@@ -11,25 +11,13 @@ pub(crate) fn validate_interface<'a>(
         interface_implementers::validate_implements_list(parent_type_name, implements, &iface.fields, ctx);
     });
 
-    if iface.fields.is_empty() {
-        diagnostics::empty_interface(parent_type_name, ctx)
-    }
-
-    for field in &iface.fields {
-        object_field::validate_object_field(parent_type_name, field, ctx);
-        let field_name = &field.node.name.node;
-        let type_name = extract_type_name(&field.node.ty.node.base);
-        let location = || format!("{parent_type_name}.{field_name}");
-        match output_types::validate_output_type(type_name, field.node.ty.pos, ctx) {
-            output_types::ValidateOutputTypeResult::Ok => (),
-            output_types::ValidateOutputTypeResult::UnknownType => {
-                diagnostics::unknown_type(type_name, &location(), ctx);
-            }
-            output_types::ValidateOutputTypeResult::InputObject => {
-                diagnostics::input_object_in_output_position(type_name, &location(), ctx);
-            }
+    ctx.with_fields(parent_type_name, &iface.fields, |ctx, fields| {
+        if fields.is_empty() {
+            diagnostics::empty_interface(parent_type_name, ctx)
         }
-    }
+
+        output_fields::validate_output_fields(parent_type_name, fields, ctx);
+    });
 }
 
 pub(crate) fn validate_interface_extension<'a>(
diff --git a/crates/graphql-schema-validation/src/validate/objects.rs b/crates/graphql-schema-validation/src/validate/objects.rs
index 60f13ec..9741e33 100644
--- a/crates/graphql-schema-validation/src/validate/objects.rs
+++ b/crates/graphql-schema-validation/src/validate/objects.rs
@@ -17,29 +17,7 @@ pub(crate) fn validate_object<'a>(
             diagnostics::empty_object(parent_type_name, ctx)
         }
 
-        for field in fields {
-            object_field::validate_object_field(parent_type_name, field, ctx);
-            let type_name = extract_type_name(&field.node.ty.node.base);
-            let field_name = &field.node.name.node;
-            let location = || format!("{parent_type_name}.{field_name}");
-            match output_types::validate_output_type(type_name, field.node.ty.pos, ctx) {
-                output_types::ValidateOutputTypeResult::Ok => (),
-                output_types::ValidateOutputTypeResult::UnknownType => {
-                    diagnostics::unknown_type(type_name, &location(), ctx);
-                }
-                output_types::ValidateOutputTypeResult::InputObject => {
-                    diagnostics::input_object_in_output_position(type_name, &location(), ctx);
-                }
-            }
-        }
-
-        let field_names = fields.iter().map(|f| f.node.name.node.as_str());
-        ctx.find_duplicates(field_names, |ctx, _, idx| {
-            let field_name = fields[idx].node.name.node.as_str();
-            ctx.push_error(miette::miette!(
-                "Duplicate field {field_name} already exists on {parent_type_name}"
-            ));
-        });
+        output_fields::validate_output_fields(parent_type_name, fields, ctx);
     });
 }
 
diff --git a/crates/graphql-schema-validation/src/validate/output_fields.rs b/crates/graphql-schema-validation/src/validate/output_fields.rs
new file mode 100644
index 0000000..d06c021
--- /dev/null
+++ b/crates/graphql-schema-validation/src/validate/output_fields.rs
@@ -0,0 +1,32 @@
+use super::*;
+
+/// Validate all the fields of an object or interface: those of its definition and those of its extensions.
+pub(crate) fn validate_output_fields<'a>(
+    parent_type_name: &str,
+    fields: &[&'a Positioned<ast::FieldDefinition>],
+    ctx: &mut Context<'a>,
+) {
+    for field in fields {
+        object_field::validate_object_field(parent_type_name, field, ctx);
+        let type_name = extract_type_name(&field.node.ty.node.base);
+        let field_name = &field.node.name.node;
+        let location = || format!("{parent_type_name}.{field_name}");
+        match output_types::validate_output_type(type_name, field.node.ty.pos, ctx) {
+            output_types::ValidateOutputTypeResult::Ok => (),
+            output_types::ValidateOutputTypeResult::UnknownType => {
+                diagnostics::unknown_type(type_name, &location(), ctx);
+            }
+            output_types::ValidateOutputTypeResult::InputObject => {
+                diagnostics::input_object_in_output_position(type_name, &location(), ctx);
+            }
+        }
+    }
+
+    let field_names = fields.iter().map(|f| f.node.name.node.as_str());
+    ctx.find_duplicates(field_names, |ctx, _, idx| {
+        let field_name = fields[idx].node.name.node.as_str();
+        ctx.push_error(miette::miette!(
+            "Duplicate field {field_name} already exists on {parent_type_name}"
+        ));
+    });
+}
-- 
2.43.0


From b04c579e0c1746be0df5809fe02447708b7594be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:54 +0000
Subject: [PATCH 26/86] fix: reject interfaces that implement themselves

---
 .../src/validate/interface_implementers.rs               | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/crates/graphql-schema-validation/src/validate/interface_implementers.rs b/crates/graphql-schema-validation/src/validate/interface_implementers.rs
index 08be8e4..cadb032 100644
--- a/crates/graphql-schema-validation/src/validate/interface_implementers.rs
+++ b/crates/graphql-schema-validation/src/validate/interface_implementers.rs
@@ -20,6 +20,15 @@ pub(crate) fn validate_implements_list<'a>(
 
     for iface in parent_implements {
         let iface_name = iface.node.as_str();
+
+        // http://spec.graphql.org/draft/#sec-Interfaces.Type-Validation
+        if iface_name == parent_name {
+            ctx.push_error(miette::miette!(
+                r#"Type "{parent_name}" cannot implement itself because it would create a circular reference."#
+            ));
+            continue;
+        }
+
         let ty = match ctx.definition_names.get(iface_name).copied() {
             Some(ty) => ty,
             None if ctx.options.contains(Options::FORBID_EXTENDING_UNKNOWN_TYPES) => {
-- 
2.43.0


From e7867181ee5f4f62881fd2e40511717fd0ec6b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:54 +0000
Subject: [PATCH 27/86] fix: accept additional non-null arguments with a
 default on interface implementers

---
 .../src/validate/interface_implementers.rs                      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/graphql-schema-validation/src/validate/interface_implementers.rs b/crates/graphql-schema-validation/src/validate/interface_implementers.rs
index cadb032..f950e0e 100644
--- a/crates/graphql-schema-validation/src/validate/interface_implementers.rs
+++ b/crates/graphql-schema-validation/src/validate/interface_implementers.rs
@@ -160,7 +160,7 @@ fn validate_field_arguments_implement_interface_field(
                     ctx.push_error(miette::miette!("Interface field argument {iface_arg_location} expects type {expected_type} but {candidate_arg_location} is type {found_type}"));
                 }
             }
-            (Some(candidate), None) if candidate.node.ty.node.nullable => (), // ok
+            (Some(candidate), None) if candidate.node.ty.node.nullable || candidate.node.default_value.is_some() => (), // ok
             (Some(candidate), None) => {
                 let arg_name = candidate.node.name.node.as_str();
                 let iface_field = format!("{iface_name}.{field_name}");
-- 
2.43.0


From c6e6d2e45bf8c79929bdf717b853e191f3568623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:54 +0000
Subject: [PATCH 28/86] fix: consider extensions when comparing the field types
 of interfaces and implementers

---
 crates/graphql-schema-validation/src/context.rs   | 15 ++++++++++++---
 .../src/validate/interface_implementers.rs        | 14 +++++++++-----
 2 files changed, 21 insertions(+), 8 deletions(-)

diff --git a/crates/graphql-schema-validation/src/context.rs b/crates/graphql-schema-validation/src/context.rs
index d3497f6..b80c0b8 100644
--- a/crates/graphql-schema-validation/src/context.rs
+++ b/crates/graphql-schema-validation/src/context.rs
@@ -93,7 +93,17 @@ impl<'a> Context<'a> {
     ) where
         F: FnMut(&mut Self, &[&'a Positioned<Name>]),
     {
-        let all_values: Vec<_> = base_values
+        let all_values = self.all_union_members(union_name, base_values);
+        handler(self, &all_values);
+    }
+
+    /// All the members of an union: those of its declaration and those of its extensions.
+    pub(crate) fn all_union_members(
+        &self,
+        union_name: &str,
+        base_values: &'a [Positioned<Name>],
+    ) -> Vec<&'a Positioned<Name>> {
+        base_values
             .iter()
             .chain(
                 self.extended_unions
@@ -102,8 +112,7 @@ impl<'a> Context<'a> {
                     .flat_map(|vecs| vecs.iter())
                     .flat_map(|values| values.iter()),
             )
-            .collect();
-        handler(self, &all_values);
+            .collect()
     }
 
     /// With an object/interface name and the object/interface declaration fields, iterate all
diff --git a/crates/graphql-schema-validation/src/validate/interface_implementers.rs b/crates/graphql-schema-validation/src/validate/interface_implementers.rs
index f950e0e..20f9554 100644
--- a/crates/graphql-schema-validation/src/validate/interface_implementers.rs
+++ b/crates/graphql-schema-validation/src/validate/interface_implementers.rs
@@ -219,15 +219,19 @@ fn validate_implementer_inner_type(
         .map(|def| &def.node.kind)
     {
         Some(ast::TypeKind::Union(union)) => {
-            if union.members.iter().any(|member| member.node == candidate_type_name) {
+            if ctx
+                .all_union_members(iface_field_type_name, &union.members)
+                .iter()
+                .any(|member| member.node == candidate_type_name)
+            {
                 return true;
             }
         }
         Some(ast::TypeKind::Interface(_)) => {
             match ctx.definition_names.get(candidate_type_name).map(|def| &def.node.kind) {
                 Some(ast::TypeKind::Object(obj)) => {
-                    if obj
-                        .implements
+                    if ctx
+                        .all_implements(candidate_type_name, &obj.implements)
                         .iter()
                         .any(|implemented| implemented.node == iface_field_type_name)
                     {
@@ -235,8 +239,8 @@ fn validate_implementer_inner_type(
                     }
                 }
                 Some(ast::TypeKind::Interface(field_iface)) => {
-                    if field_iface
-                        .implements
+                    if ctx
+                        .all_implements(candidate_type_name, &field_iface.implements)
                         .iter()
                         .any(|implemented| implemented.node == iface_field_type_name)
                     {
-- 
2.43.0


From bd56ac77ec999de1d337a724b6f92eb7eaa80242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:30 +0000
Subject: [PATCH 29/86] fix: validate input objects together with their
 extensions

---
 .../graphql-schema-validation/src/context.rs  | 19 +++++++++++++++++++
 .../src/validate/input_object_cycles.rs       | 11 +++++------
 .../src/validate/input_objects.rs             |  8 +++++---
 .../src/validate/type_definition.rs           |  8 +++++++-
 4 files changed, 36 insertions(+), 10 deletions(-)

diff --git a/crates/graphql-schema-validation/src/context.rs b/crates/graphql-schema-validation/src/context.rs
index b80c0b8..2393a06 100644
--- a/crates/graphql-schema-validation/src/context.rs
+++ b/crates/graphql-schema-validation/src/context.rs
@@ -3,6 +3,7 @@ use async_graphql_parser::{Pos, Positioned, types as ast};
 use async_graphql_value::Name;
 use std::collections::HashMap;
 
+type AstInputField = Positioned<ast::InputValueDefinition>;
 type AstField = Positioned<ast::FieldDefinition>;
 
 pub(crate) struct Context<'a> {
@@ -30,6 +31,9 @@ pub(crate) struct Context<'a> {
     // Implementer extensions -> interfaces
     pub(crate) extended_interface_implementations: HashMap<&'a str, Vec<&'a Positioned<Name>>>,
 
+    // Input object name, extended fields. Only populated in the presence of extensions.
+    pub(crate) extended_input_fields: HashMap<&'a str, Vec<&'a [AstInputField]>>,
+
     // Enum name, extended members. Only populated in the presence of extensions.
     pub(crate) extended_enums: HashMap<&'a str, Vec<&'a [Positioned<ast::EnumValueDefinition>]>>,
 
@@ -56,6 +60,7 @@ impl<'a> Context<'a> {
             extended_interface_implementations: HashMap::default(),
             extended_fields: HashMap::default(),
             extended_unions: HashMap::default(),
+            extended_input_fields: HashMap::default(),
             extended_enums: HashMap::default(),
         }
     }
@@ -139,6 +144,20 @@ impl<'a> Context<'a> {
             .collect()
     }
 
+    /// All the fields of an input object: those of its declaration and those of its extensions.
+    pub(crate) fn all_input_fields(&self, name: &str, base_fields: &'a [AstInputField]) -> Vec<&'a AstInputField> {
+        base_fields
+            .iter()
+            .chain(
+                self.extended_input_fields
+                    .get(name)
+                    .into_iter()
+                    .flat_map(|fields| fields.iter())
+                    .flat_map(|f| f.iter()),
+            )
+            .collect()
+    }
+
     /// With an object/interface name and the object/interface `implements` list, iterate all these
     /// implemented interfaces _and the `implements` defined in any extensions for this
     /// object/interface_ together.
diff --git a/crates/graphql-schema-validation/src/validate/input_object_cycles.rs b/crates/graphql-schema-validation/src/validate/input_object_cycles.rs
index 1720577..d4c5030 100644
--- a/crates/graphql-schema-validation/src/validate/input_object_cycles.rs
+++ b/crates/graphql-schema-validation/src/validate/input_object_cycles.rs
@@ -5,12 +5,10 @@ use std::collections::HashSet;
 /// http://spec.graphql.org/draft/#sec-Input-Objects.Type-Validation
 pub(crate) fn input_object_cycles<'a>(
     input_object_name: &'a str,
-    input_object: &'a ast::InputObjectType,
+    fields: &[&'a Positioned<ast::InputValueDefinition>],
     ctx: &mut Context<'a>,
 ) {
-    if let Some(mut chain) =
-        references_input_object_rec(input_object_name, &input_object.fields, &mut HashSet::new(), ctx)
-    {
+    if let Some(mut chain) = references_input_object_rec(input_object_name, fields, &mut HashSet::new(), ctx) {
         chain.reverse();
         ctx.push_error(miette::miette!(r#"Cannot reference Input Object {input_object_name} within itself through a series of non-null fields: "{}""#, chain.join(".")));
     }
@@ -18,7 +16,7 @@ pub(crate) fn input_object_cycles<'a>(
 
 fn references_input_object_rec<'a>(
     name: &'a str,
-    fields: &'a [Positioned<ast::InputValueDefinition>],
+    fields: &[&'a Positioned<ast::InputValueDefinition>],
     visited: &mut HashSet<&'a str>,
     ctx: &mut Context<'a>,
 ) -> Option<Vec<&'a str>> {
@@ -43,7 +41,8 @@ fn references_input_object_rec<'a>(
             ctx.definition_names.get(field_type_name).map(|ty| &ty.node.kind)
         {
             visited.insert(field_type_name);
-            if let Some(mut chain) = references_input_object_rec(name, &input_object.fields, visited, ctx) {
+            let fields = ctx.all_input_fields(field_type_name, &input_object.fields);
+            if let Some(mut chain) = references_input_object_rec(name, &fields, visited, ctx) {
                 chain.push(field.name.node.as_str());
                 return Some(chain);
             }
diff --git a/crates/graphql-schema-validation/src/validate/input_objects.rs b/crates/graphql-schema-validation/src/validate/input_objects.rs
index 6dd7778..609e953 100644
--- a/crates/graphql-schema-validation/src/validate/input_objects.rs
+++ b/crates/graphql-schema-validation/src/validate/input_objects.rs
@@ -12,11 +12,13 @@ pub(crate) fn validate_input_object<'a>(
         ctx,
     );
 
-    if input_object.fields.is_empty() {
+    let fields = ctx.all_input_fields(parent_type_name, &input_object.fields);
+
+    if fields.is_empty() {
         diagnostics::empty_input_object(parent_type_name, ctx);
     }
 
-    for field in &input_object.fields {
+    for field in &fields {
         validate_directives(
             &field.node.directives,
             ast::DirectiveLocation::InputFieldDefinition,
@@ -34,7 +36,7 @@ pub(crate) fn validate_input_object<'a>(
         }
     }
 
-    input_object_cycles::input_object_cycles(parent_type_name, input_object, ctx);
+    input_object_cycles::input_object_cycles(parent_type_name, &fields, ctx);
 }
 
 pub(crate) fn validate_input_object_extension<'a>(
diff --git a/crates/graphql-schema-validation/src/validate/type_definition.rs b/crates/graphql-schema-validation/src/validate/type_definition.rs
index eba2023..789df0e 100644
--- a/crates/graphql-schema-validation/src/validate/type_definition.rs
+++ b/crates/graphql-schema-validation/src/validate/type_definition.rs
@@ -42,7 +42,13 @@ pub(crate) fn validate_type_definition<'a>(typedef: &'a Positioned<ast::TypeDefi
             ast::TypeKind::Union(union) => {
                 ctx.extended_unions.entry(type_name).or_default().push(&union.members);
             }
-            _ => (),
+            ast::TypeKind::InputObject(input_object) => {
+                ctx.extended_input_fields
+                    .entry(type_name)
+                    .or_default()
+                    .push(&input_object.fields);
+            }
+            ast::TypeKind::Scalar => (),
         }
 
         ctx.extension_names.entry(type_name).or_default().push(typedef);
-- 
2.43.0


From dad5ddf0c08bdb1c34b5a9d661cc35a4a8107a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:30 +0000
Subject: [PATCH 30/86] fix: reject duplicate and reserved input field names

---
 .../src/validate/input_objects.rs                  | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/crates/graphql-schema-validation/src/validate/input_objects.rs b/crates/graphql-schema-validation/src/validate/input_objects.rs
index 609e953..d6fb039 100644
--- a/crates/graphql-schema-validation/src/validate/input_objects.rs
+++ b/crates/graphql-schema-validation/src/validate/input_objects.rs
@@ -18,6 +18,14 @@ pub(crate) fn validate_input_object<'a>(
         diagnostics::empty_input_object(parent_type_name, ctx);
     }
 
+    let field_names = fields.iter().map(|field| field.node.name.node.as_str());
+    ctx.find_duplicates(field_names, |ctx, _, idx| {
+        let field_name = fields[idx].node.name.node.as_str();
+        ctx.push_error(miette::miette!(
+            "Duplicate field {field_name} already exists on {parent_type_name}"
+        ));
+    });
+
     for field in &fields {
         validate_directives(
             &field.node.directives,
@@ -25,6 +33,12 @@ pub(crate) fn validate_input_object<'a>(
             ctx,
         );
         let field_name = &field.node.name.node;
+
+        // http://spec.graphql.org/draft/#sec-Input-Objects.Type-Validation
+        if field_name.starts_with("__") {
+            diagnostics::double_underscore_name(field_name, field.node.name.pos, ctx);
+        }
+
         let type_name = extract_type_name(&field.node.ty.node.base);
         let location = || format!("{parent_type_name}.{field_name}");
         match input_types::validate_input_type(type_name, field.node.ty.pos, ctx) {
-- 
2.43.0


From 56b65c16658937fe187ce8ed9b86da4ab6ff9630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:30 +0000
Subject: [PATCH 31/86] fix: reject enum values with reserved names

---
 crates/graphql-schema-validation/src/validate/enums.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/graphql-schema-validation/src/validate/enums.rs b/crates/graphql-schema-validation/src/validate/enums.rs
index 169919f..22024e7 100644
--- a/crates/graphql-schema-validation/src/validate/enums.rs
+++ b/crates/graphql-schema-validation/src/validate/enums.rs
@@ -20,6 +20,11 @@ pub(crate) fn validate_enum_members<'a>(
         });
 
         for value in values {
+            let value_name = &value.node.value;
+            if value_name.node.starts_with("__") {
+                diagnostics::double_underscore_name(&value_name.node, value_name.pos, ctx);
+            }
+
             validate_directives(&value.node.directives, ast::DirectiveLocation::EnumValue, ctx);
         }
     });
-- 
2.43.0


From b285a437911a7c6394bc2bccff5225f8c7c97c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:30 +0000
Subject: [PATCH 32/86] fix: validate the directives of scalar definitions

---
 .../graphql-schema-validation/src/validate/type_definition.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/graphql-schema-validation/src/validate/type_definition.rs b/crates/graphql-schema-validation/src/validate/type_definition.rs
index 789df0e..a4e130b 100644
--- a/crates/graphql-schema-validation/src/validate/type_definition.rs
+++ b/crates/graphql-schema-validation/src/validate/type_definition.rs
@@ -121,7 +121,9 @@ pub(crate) fn validate_definitions_second_pass<'a>(ast: &'a ast::ServiceDocument
                     }
 
                     ast::TypeKind::Scalar if is_extension => validate_scalar_extension(type_name, typedef, ctx),
-                    ast::TypeKind::Scalar => (),
+                    ast::TypeKind::Scalar => {
+                        validate_directives(&typedef.node.directives, ast::DirectiveLocation::Scalar, ctx);
+                    }
                 }
             }
         }
-- 
2.43.0


From 61148283ce71c0bd43856151f28b71381adde215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:30 +0000
Subject: [PATCH 33/86] fix: reject duplicate directive definitions

---
 .../src/validate/directive_definitions.rs                 | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/graphql-schema-validation/src/validate/directive_definitions.rs b/crates/graphql-schema-validation/src/validate/directive_definitions.rs
index ebf3f91..449100e 100644
--- a/crates/graphql-schema-validation/src/validate/directive_definitions.rs
+++ b/crates/graphql-schema-validation/src/validate/directive_definitions.rs
@@ -10,8 +10,12 @@ pub(crate) fn validate_directive_definition<'a>(
         });
     }
 
-    ctx.directive_names
-        .insert(definition.node.name.node.as_str(), definition);
+    let name = definition.node.name.node.as_str();
+    if ctx.directive_names.insert(name, definition).is_some() {
+        ctx.push_error(miette::miette!(
+            r#"Duplicate directive definition. There can only be one directive named "@{name}""#
+        ));
+    }
 }
 
 pub(crate) fn validate_directives<'a>(
-- 
2.43.0


From 57373b07c900c28eb29890b1e43490656ee24f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:30 +0000
Subject: [PATCH 34/86] fix: validate the names and directives of directive
 definition arguments

---
 .../src/validate/type_definition.rs           | 25 ++++++++++++++++---
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/crates/graphql-schema-validation/src/validate/type_definition.rs b/crates/graphql-schema-validation/src/validate/type_definition.rs
index a4e130b..241631f 100644
--- a/crates/graphql-schema-validation/src/validate/type_definition.rs
+++ b/crates/graphql-schema-validation/src/validate/type_definition.rs
@@ -130,12 +130,29 @@ pub(crate) fn validate_definitions_second_pass<'a>(ast: &'a ast::ServiceDocument
     }
 }
 
-fn validate_directiv_definition_arguments(
-    directive_definition: &Positioned<ast::DirectiveDefinition>,
-    ctx: &mut Context<'_>,
+fn validate_directiv_definition_arguments<'a>(
+    directive_definition: &'a Positioned<ast::DirectiveDefinition>,
+    ctx: &mut Context<'a>,
 ) {
     let directive_name = directive_definition.node.name.node.as_str();
-    for arg in &directive_definition.node.arguments {
+    let args = &directive_definition.node.arguments;
+
+    ctx.find_duplicates(
+        args.iter().map(|arg| arg.node.name.node.as_str()),
+        |ctx, _, duplicate| {
+            let name = args[duplicate].node.name.node.as_str();
+            ctx.push_error(miette::miette!("Duplicate argument {name} in @{directive_name}"));
+        },
+    );
+
+    for arg in args {
+        let arg_name = &arg.node.name;
+        if arg_name.node.starts_with("__") {
+            diagnostics::double_underscore_name(&arg_name.node, arg_name.pos, ctx);
+        }
+
+        validate_directives(&arg.node.directives, ast::DirectiveLocation::ArgumentDefinition, ctx);
+
         let type_name = extract_type_name(&arg.node.ty.node.base);
         let location = || format!("@{directive_name}({}:)", arg.node.name.node);
         match validate_input_type(type_name, arg.node.ty.pos, ctx) {
-- 
2.43.0


From 7794bd68b69d5dd103f577c9f65888b11a6d71fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:30 +0000
Subject: [PATCH 35/86] fix: compare the root types that a schema definition
 and its extensions name

---
 .../src/validate/schema_definition.rs         | 45 ++++++++++++++-----
 1 file changed, 34 insertions(+), 11 deletions(-)

diff --git a/crates/graphql-schema-validation/src/validate/schema_definition.rs b/crates/graphql-schema-validation/src/validate/schema_definition.rs
index ef82d0f..cb1d790 100644
--- a/crates/graphql-schema-validation/src/validate/schema_definition.rs
+++ b/crates/graphql-schema-validation/src/validate/schema_definition.rs
@@ -4,6 +4,8 @@ use crate::context::SchemaDefinition;
 pub(crate) fn validate_schema_definitions<'a>(schema_definitions: &[SchemaDefinition<'a>], ctx: &mut Context<'a>) {
     let mut first_definition_pos = None;
 
+    validate_root_types_are_distinct(schema_definitions, ctx);
+
     for schema_definition in schema_definitions {
         validate_directives(schema_definition.directives, ast::DirectiveLocation::Schema, ctx);
         validate_schema_definition_references(schema_definition, ctx);
@@ -40,17 +42,6 @@ pub(crate) fn validate_schema_definition_references<'a>(def: &SchemaDefinition<'
         (def.subscription, "Subscription"),
     ];
 
-    for idx in 0..(names.len()) {
-        let name = &names[idx];
-        let name = name.0.unwrap_or(name.1);
-        for other_name in names[idx..].iter().skip(1) {
-            let other_name = other_name.0.unwrap_or(other_name.1);
-            if name == other_name {
-                ctx.push_error(miette::miette!("Type used twice in schema definition: `{name}`"));
-            }
-        }
-    }
-
     for (actual, default) in &names {
         let Some(actual) = actual else { continue };
 
@@ -89,3 +80,35 @@ pub(crate) fn validate_root_types(ctx: &mut Context<'_>) {
         }
     }
 }
+
+/// Every operation has at most one root type, and no two operations have the same one. The schema definition and its
+/// extensions are considered together.
+fn validate_root_types_are_distinct<'a>(schema_definitions: &[SchemaDefinition<'a>], ctx: &mut Context<'a>) {
+    let mut roots: Vec<(&str, &str)> = Vec::new();
+
+    // Further schema definitions are reported separately.
+    let definition = schema_definitions.iter().find(|def| !def.is_extension);
+    let extensions = schema_definitions.iter().filter(|def| def.is_extension);
+
+    for def in definition.into_iter().chain(extensions) {
+        let operations = [
+            ("query", def.query),
+            ("mutation", def.mutation),
+            ("subscription", def.subscription),
+        ];
+
+        for (operation, name) in operations {
+            let Some(name) = name else { continue };
+
+            if roots.iter().any(|(other, _)| *other == operation) {
+                ctx.push_error(miette::miette!(
+                    "There can be only one {operation} root in the schema definition"
+                ));
+            } else if roots.iter().any(|(_, other)| *other == name) {
+                ctx.push_error(miette::miette!("Type used twice in schema definition: `{name}`"));
+            }
+
+            roots.push((operation, name));
+        }
+    }
+}
-- 
2.43.0


From f48e68d1d5a7aa1e0a056bfd319a6498a9e0cb5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:11 +0000
Subject: [PATCH 36/86] fix: check the default root types when the schema is
 only extended

---
 crates/graphql-schema-validation/src/validate.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/graphql-schema-validation/src/validate.rs b/crates/graphql-schema-validation/src/validate.rs
index d9f3d52..d97a593 100644
--- a/crates/graphql-schema-validation/src/validate.rs
+++ b/crates/graphql-schema-validation/src/validate.rs
@@ -44,7 +44,7 @@ pub(crate) fn validate<'a>(parsed_ast: &'a ast::ServiceDocument, ctx: &mut Conte
 
     validate_schema_definitions(&schema_definitions, ctx);
 
-    if schema_definitions.is_empty() {
+    if schema_definitions.iter().all(|definition| definition.is_extension) {
         validate_root_types(ctx);
     }
 
-- 
2.43.0


From 916a94f905b86fc8ddb79b52b4d6db28f8a3a1f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:11 +0000
Subject: [PATCH 37/86] fix: accept types known from extensions wherever they
 are used, if that is allowed

---
 crates/graphql-schema-validation/src/context.rs  | 16 ++++++++++++++++
 .../src/validate/input_types.rs                  |  2 +-
 .../src/validate/output_types.rs                 | 10 ++--------
 .../src/validate/schema_definition.rs            |  2 +-
 .../src/validate/unions.rs                       |  2 +-
 5 files changed, 21 insertions(+), 11 deletions(-)

diff --git a/crates/graphql-schema-validation/src/context.rs b/crates/graphql-schema-validation/src/context.rs
index 2393a06..62a0547 100644
--- a/crates/graphql-schema-validation/src/context.rs
+++ b/crates/graphql-schema-validation/src/context.rs
@@ -65,6 +65,22 @@ impl<'a> Context<'a> {
         }
     }
 
+    /// The definition of a type or, where extensions of types that are not defined in the document are allowed, an
+    /// extension of it.
+    pub(crate) fn known_type(&self, name: &str) -> Option<&'a Positioned<ast::TypeDefinition>> {
+        if let Some(definition) = self.definition_names.get(name) {
+            return Some(definition);
+        }
+
+        if self.options.contains(crate::Options::FORBID_EXTENDING_UNKNOWN_TYPES) {
+            return None;
+        }
+
+        self.extension_names
+            .get(name)
+            .and_then(|extensions| extensions.first().copied())
+    }
+
     /// With an enum name and the enum declaration values, iterate all these values _and the values
     /// defined in enum extensions_ together.
     pub(crate) fn with_enum_values<F>(
diff --git a/crates/graphql-schema-validation/src/validate/input_types.rs b/crates/graphql-schema-validation/src/validate/input_types.rs
index 626d474..392fed5 100644
--- a/crates/graphql-schema-validation/src/validate/input_types.rs
+++ b/crates/graphql-schema-validation/src/validate/input_types.rs
@@ -13,7 +13,7 @@ pub(crate) fn validate_input_type(type_name: &str, _pos: Pos, ctx: &mut Context<
         return ValidateInputTypeResult::Ok;
     }
 
-    let Some(definition) = ctx.definition_names.get(type_name) else {
+    let Some(definition) = ctx.known_type(type_name) else {
         return ValidateInputTypeResult::UnknownType;
     };
 
diff --git a/crates/graphql-schema-validation/src/validate/output_types.rs b/crates/graphql-schema-validation/src/validate/output_types.rs
index 524013d..c9128a2 100644
--- a/crates/graphql-schema-validation/src/validate/output_types.rs
+++ b/crates/graphql-schema-validation/src/validate/output_types.rs
@@ -1,4 +1,4 @@
-use crate::{Options, context::Context};
+use crate::context::Context;
 use async_graphql_parser::{Pos, types::TypeKind};
 
 #[must_use]
@@ -13,13 +13,7 @@ pub(crate) fn validate_output_type(name: &str, _pos: Pos, ctx: &mut Context<'_>)
         return ValidateOutputTypeResult::Ok;
     }
 
-    let Some(definition) = ctx.definition_names.get(name).or_else(|| {
-        if ctx.options.contains(Options::FORBID_EXTENDING_UNKNOWN_TYPES) {
-            return None;
-        }
-
-        ctx.extension_names.get(name).and_then(|extension| extension.first())
-    }) else {
+    let Some(definition) = ctx.known_type(name) else {
         return ValidateOutputTypeResult::UnknownType;
     };
 
diff --git a/crates/graphql-schema-validation/src/validate/schema_definition.rs b/crates/graphql-schema-validation/src/validate/schema_definition.rs
index cb1d790..dd76d66 100644
--- a/crates/graphql-schema-validation/src/validate/schema_definition.rs
+++ b/crates/graphql-schema-validation/src/validate/schema_definition.rs
@@ -45,7 +45,7 @@ pub(crate) fn validate_schema_definition_references<'a>(def: &SchemaDefinition<'
     for (actual, default) in &names {
         let Some(actual) = actual else { continue };
 
-        match ctx.definition_names.get(actual) {
+        match ctx.known_type(actual) {
             None => {
                 let labels = vec![miette::LabeledSpan::new_with_span(
                     None,
diff --git a/crates/graphql-schema-validation/src/validate/unions.rs b/crates/graphql-schema-validation/src/validate/unions.rs
index baf49e5..a2dd68e 100644
--- a/crates/graphql-schema-validation/src/validate/unions.rs
+++ b/crates/graphql-schema-validation/src/validate/unions.rs
@@ -32,7 +32,7 @@ pub(crate) fn validate_union_members<'a>(
 
         for member in members {
             let member_name = member.node.as_str();
-            match ctx.definition_names.get(member_name) {
+            match ctx.known_type(member_name) {
                 Some(definition) => match definition.node.kind {
                     ast::TypeKind::Object(_) => (), // ok
                     _ => ctx.push_error(miette::miette!(
-- 
2.43.0


From cff788fa02b8e0991a08e472abd9437c3f2b93fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:11 +0000
Subject: [PATCH 38/86] fix: reject deprecated required input fields and
 directive arguments (draft validations)

---
 .../src/validate/input_objects.rs                  | 14 ++++++++++++++
 .../src/validate/type_definition.rs                | 11 +++++++++++
 2 files changed, 25 insertions(+)

diff --git a/crates/graphql-schema-validation/src/validate/input_objects.rs b/crates/graphql-schema-validation/src/validate/input_objects.rs
index d6fb039..bd32c02 100644
--- a/crates/graphql-schema-validation/src/validate/input_objects.rs
+++ b/crates/graphql-schema-validation/src/validate/input_objects.rs
@@ -39,6 +39,20 @@ pub(crate) fn validate_input_object<'a>(
             diagnostics::double_underscore_name(field_name, field.node.name.pos, ctx);
         }
 
+        if ctx.options.contains(Options::DRAFT_VALIDATIONS)
+            && !field.node.ty.node.nullable
+            && field.node.default_value.is_none()
+            && field
+                .node
+                .directives
+                .iter()
+                .any(|dir| dir.node.name.node == "deprecated")
+        {
+            ctx.push_error(miette::miette!(
+                "Required input field {parent_type_name}.{field_name} cannot be deprecated."
+            ));
+        }
+
         let type_name = extract_type_name(&field.node.ty.node.base);
         let location = || format!("{parent_type_name}.{field_name}");
         match input_types::validate_input_type(type_name, field.node.ty.pos, ctx) {
diff --git a/crates/graphql-schema-validation/src/validate/type_definition.rs b/crates/graphql-schema-validation/src/validate/type_definition.rs
index 241631f..8682e2c 100644
--- a/crates/graphql-schema-validation/src/validate/type_definition.rs
+++ b/crates/graphql-schema-validation/src/validate/type_definition.rs
@@ -153,6 +153,17 @@ fn validate_directiv_definition_arguments<'a>(
 
         validate_directives(&arg.node.directives, ast::DirectiveLocation::ArgumentDefinition, ctx);
 
+        if ctx.options.contains(Options::DRAFT_VALIDATIONS)
+            && !arg.node.ty.node.nullable
+            && arg.node.default_value.is_none()
+            && arg.node.directives.iter().any(|dir| dir.node.name.node == "deprecated")
+        {
+            ctx.push_error(miette::miette!(
+                "Required argument @{directive_name}({}:) cannot be deprecated.",
+                arg_name.node,
+            ));
+        }
+
         let type_name = extract_type_name(&arg.node.ty.node.base);
         let location = || format!("@{directive_name}({}:)", arg.node.name.node);
         match validate_input_type(type_name, arg.node.ty.pos, ctx) {
-- 
2.43.0


From 86e96b627810f9f1a5063af71e516136600e61f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:55 +0000
Subject: [PATCH 39/86] fix: lint deprecated arguments without a reason

---
 crates/graphql-lint/src/lib.rs | 66 +++++++++++++++++++++++++++++-----
 1 file changed, 57 insertions(+), 9 deletions(-)

diff --git a/crates/graphql-lint/src/lib.rs b/crates/graphql-lint/src/lib.rs
index 83bc4d4..53049d2 100644
--- a/crates/graphql-lint/src/lib.rs
+++ b/crates/graphql-lint/src/lib.rs
@@ -66,9 +66,12 @@ impl<'a> SchemaLinter {
                             .for_each(|directive| self.visit_directive_usage(r#type, directive));
                         object.fields().for_each(|field| {
                             self.visit_field(r#type, field);
-                            field
-                                .arguments()
-                                .for_each(|argument| self.visit_field_argument(r#type, field, argument));
+                            field.arguments().for_each(|argument| {
+                                self.visit_field_argument(r#type, field, argument);
+                                argument.directives().for_each(|directive_usage| {
+                                    self.visit_directive_usage_field_argument(r#type, field, argument, directive_usage);
+                                });
+                            });
                             field.directives().for_each(|directive_usage| {
                                 self.visit_directive_usage_field(r#type, field, directive_usage);
                             });
@@ -81,9 +84,12 @@ impl<'a> SchemaLinter {
                             .for_each(|directive| self.visit_directive_usage(r#type, directive));
                         interface.fields().for_each(|field| {
                             self.visit_field(r#type, field);
-                            field
-                                .arguments()
-                                .for_each(|argument| self.visit_field_argument(r#type, field, argument));
+                            field.arguments().for_each(|argument| {
+                                self.visit_field_argument(r#type, field, argument);
+                                argument.directives().for_each(|directive_usage| {
+                                    self.visit_directive_usage_field_argument(r#type, field, argument, directive_usage);
+                                });
+                            });
                             field.directives().for_each(|directive_usage| {
                                 self.visit_directive_usage_field(r#type, field, directive_usage);
                             });
@@ -123,9 +129,12 @@ impl<'a> SchemaLinter {
             }
             Definition::Directive(directive) => {
                 self.visit_directive(directive);
-                directive
-                    .arguments()
-                    .for_each(|argument| self.visit_directive_argument(directive, argument));
+                directive.arguments().for_each(|argument| {
+                    self.visit_directive_argument(directive, argument);
+                    argument.directives().for_each(|directive_usage| {
+                        self.visit_directive_usage_directive_argument(directive, argument, directive_usage);
+                    });
+                });
             }
         });
 
@@ -321,6 +330,45 @@ impl<'a> SchemaLinter {
         }
     }
 
+    pub fn visit_directive_usage_field_argument(
+        &mut self,
+        parent_type: TypeDefinition<'_>,
+        parent_field: FieldDefinition<'_>,
+        parent_argument: InputValueDefinition<'_>,
+        directive: Directive<'_>,
+    ) {
+        if directive.name() == "deprecated" && !directive.arguments().any(|argument| argument.name() == "reason") {
+            self.diagnostics.push((
+                format!(
+                    "usage of directive 'deprecated' on argument '{}' on field '{}' on {} '{}' does not populate the 'reason' argument",
+                    parent_argument.name(),
+                    parent_field.name(),
+                    Self::type_definition_display(parent_type),
+                    parent_type.name()
+                ),
+                Severity::Warning,
+            ));
+        }
+    }
+
+    pub fn visit_directive_usage_directive_argument(
+        &mut self,
+        parent_directive: DirectiveDefinition<'_>,
+        parent_argument: InputValueDefinition<'_>,
+        directive: Directive<'_>,
+    ) {
+        if directive.name() == "deprecated" && !directive.arguments().any(|argument| argument.name() == "reason") {
+            self.diagnostics.push((
+                format!(
+                    "usage of directive 'deprecated' on argument '{}' on directive '{}' does not populate the 'reason' argument",
+                    parent_argument.name(),
+                    parent_directive.name()
+                ),
+                Severity::Warning,
+            ));
+        }
+    }
+
     pub fn visit_directive_usage_input_value(
         &mut self,
         parent_input: InputObjectDefinition<'_>,
-- 
2.43.0


From d515e1184864e8600d677644c8e30d1a7fcf068b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:18 +0000
Subject: [PATCH 40/86] fix: look up arguments whose type changed in the target
 schema

---
 crates/operation-checks/src/check/rules.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/operation-checks/src/check/rules.rs b/crates/operation-checks/src/check/rules.rs
index 783a3a8..023ad5c 100644
--- a/crates/operation-checks/src/check/rules.rs
+++ b/crates/operation-checks/src/check/rules.rs
@@ -156,7 +156,7 @@ pub(super) fn change_field_argument_type<T: UsageProvider>(
     let (field_name, arg_name) = field_name_and_arg_name.split_once('.').unwrap();
 
     let arg_in_src = check_params.source.find_argument((type_name, field_name, arg_name));
-    let arg_in_target = check_params.source.find_argument((type_name, field_name, arg_name));
+    let arg_in_target = check_params.target.find_argument((type_name, field_name, arg_name));
 
     'refine: {
         if let Some((src_id, target_id)) = arg_in_src.zip(arg_in_target) {
-- 
2.43.0


From ebf644d6f22f156ef392565f40954be584f2c856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:18 +0000
Subject: [PATCH 41/86] fix: find the arguments of a field in operation checks
 whatever sorts before them

---
 crates/operation-checks/src/schema.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/operation-checks/src/schema.rs b/crates/operation-checks/src/schema.rs
index 4b48b08..2e89d10 100644
--- a/crates/operation-checks/src/schema.rs
+++ b/crates/operation-checks/src/schema.rs
@@ -73,7 +73,7 @@ impl Schema {
         let start = self.field_arguments.partition_point(
             |FieldArgument {
                  type_name, field_name, ..
-             }| { type_name < &field.type_name && field_name < &field.field_name },
+             }| { (type_name, field_name) < (&field.type_name, &field.field_name) },
         );
 
         self.field_arguments[start..]
-- 
2.43.0


From 45e3e171a630b64cd88d4bd3d5dc0cfb35259725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:18 +0000
Subject: [PATCH 42/86] fix: consider the arguments of interface fields in
 operation checks

---
 .../src/schema/async_graphql.rs               | 32 ++++++++++++-------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/crates/operation-checks/src/schema/async_graphql.rs b/crates/operation-checks/src/schema/async_graphql.rs
index d16cadf..adef632 100644
--- a/crates/operation-checks/src/schema/async_graphql.rs
+++ b/crates/operation-checks/src/schema/async_graphql.rs
@@ -53,17 +53,7 @@ impl From<ServiceDocument> for schema::Schema {
                                     wrappers,
                                 });
 
-                                for argument in &field.node.arguments {
-                                    let (base_type, wrappers) = extract_type(&argument.node.ty.node);
-                                    field_arguments.push(schema::FieldArgument {
-                                        type_name: type_name.to_string(),
-                                        field_name: field_name.to_string(),
-                                        argument_name: argument.node.name.node.to_string(),
-                                        base_type,
-                                        wrappers,
-                                        has_default: argument.node.default_value.is_some(),
-                                    });
-                                }
+                                push_arguments(type_name, &field.node, &mut field_arguments);
                             }
                         }
                         async_graphql_parser::types::TypeKind::Interface(iface) => {
@@ -80,6 +70,8 @@ impl From<ServiceDocument> for schema::Schema {
                                     base_type,
                                     wrappers,
                                 });
+
+                                push_arguments(type_name, &field.node, &mut field_arguments);
                             }
                         }
                         async_graphql_parser::types::TypeKind::InputObject(input_obj) => {
@@ -116,6 +108,24 @@ impl From<ServiceDocument> for schema::Schema {
     }
 }
 
+fn push_arguments(
+    type_name: &str,
+    field: &async_graphql_parser::types::FieldDefinition,
+    field_arguments: &mut Vec<schema::FieldArgument>,
+) {
+    for argument in &field.arguments {
+        let (base_type, wrappers) = extract_type(&argument.node.ty.node);
+        field_arguments.push(schema::FieldArgument {
+            type_name: type_name.to_string(),
+            field_name: field.name.node.to_string(),
+            argument_name: argument.node.name.node.to_string(),
+            base_type,
+            wrappers,
+            has_default: argument.node.default_value.is_some(),
+        });
+    }
+}
+
 pub(crate) fn extract_type(top_level_ty: &async_graphql_parser::types::Type) -> (String, WrappingTypes) {
     let mut ty = top_level_ty;
     let mut wrapper_types = WrappingTypes::default();
-- 
2.43.0


From 92a6884065b4a6c8b72342ab2dcca6ab85a232f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:18 +0000
Subject: [PATCH 43/86] fix: count type conditions of named fragments, and by
 number of requests, in operation checks

---
 .../operation-checks/src/aggregate_field_usage.rs  | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/crates/operation-checks/src/aggregate_field_usage.rs b/crates/operation-checks/src/aggregate_field_usage.rs
index 5d2252b..58513af 100644
--- a/crates/operation-checks/src/aggregate_field_usage.rs
+++ b/crates/operation-checks/src/aggregate_field_usage.rs
@@ -159,6 +159,13 @@ impl FieldUsage {
         *self.count_per_enum_value.entry(enum_and_value).or_insert(0) += self.increment;
     }
 
+    fn register_type_condition(&mut self, parent_type_name: &str, type_condition: &str) {
+        *self
+            .type_condition_counts
+            .entry([parent_type_name, type_condition].join("."))
+            .or_insert(0) += self.increment;
+    }
+
     fn register_argument_with_default_left_out(&mut self, argument_id: schema::ArgumentId) {
         *self
             .arguments_with_defaults_left_out_count
@@ -247,14 +254,13 @@ fn aggregate_field_usage_inner(
                     continue;
                 };
 
+                usage.register_type_condition(parent_type_name, type_condition);
+
                 aggregate_field_usage_inner(*selection, type_condition, query, schema, usage);
             }
             Selection::InlineFragment { on, selection } => {
                 let subselection_parent_type = if let Some(on) = on {
-                    *usage
-                        .type_condition_counts
-                        .entry([parent_type_name, on].join("."))
-                        .or_insert(0) += 1;
+                    usage.register_type_condition(parent_type_name, on);
 
                     on
                 } else {
-- 
2.43.0


From 42b00b8dbf5d41bda95fbd996182a05c2d0bf692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:18 +0000
Subject: [PATCH 44/86] fix: flag removed implementations and union members
 used by a fragment on the abstract type

---
 crates/operation-checks/src/check.rs       |  6 ++++++
 crates/operation-checks/src/check/rules.rs | 20 +++++++++-----------
 2 files changed, 15 insertions(+), 11 deletions(-)

diff --git a/crates/operation-checks/src/check.rs b/crates/operation-checks/src/check.rs
index 5e24295..c5142e3 100644
--- a/crates/operation-checks/src/check.rs
+++ b/crates/operation-checks/src/check.rs
@@ -61,6 +61,12 @@ impl<'a, T: UsageProvider> CheckParams<'a, T> {
         self.field_usage.enum_value_is_used(path)
     }
 
+    /// Whether there is a type condition on one of the two types inside of a selection on the other.
+    fn types_are_related_by_type_condition(&self, a: &str, b: &str) -> bool {
+        self.field_usage.type_condition_is_used(&format!("{a}.{b}"))
+            || self.field_usage.type_condition_is_used(&format!("{b}.{a}"))
+    }
+
     fn argument_is_left_out(&self, path: &str) -> bool {
         let Some(argument_id) = self.find_argument(path) else {
             return false;
diff --git a/crates/operation-checks/src/check/rules.rs b/crates/operation-checks/src/check/rules.rs
index 023ad5c..8bb82cd 100644
--- a/crates/operation-checks/src/check/rules.rs
+++ b/crates/operation-checks/src/check/rules.rs
@@ -297,8 +297,8 @@ pub(super) fn change_field_type<T: UsageProvider>(
     }
 }
 
-/// Removing an `implements` is safe iff there is no inline fragment making use of the
-/// implementer on selections on the interface.
+/// Removing an `implements` is safe iff there is no fragment making use of the implementer on
+/// selections on the interface, or the other way around.
 pub(super) fn remove_interface_implementation<T: UsageProvider>(
     CheckArgs {
         change, check_params, ..
@@ -307,10 +307,7 @@ pub(super) fn remove_interface_implementation<T: UsageProvider>(
     let (type_name, interface_name) = change.path.split_once('.')?;
     let interface_name = interface_name.trim_start_matches('&');
 
-    if !check_params
-        .field_usage
-        .type_condition_is_used(&format!("{interface_name}.{type_name}"))
-    {
+    if !check_params.types_are_related_by_type_condition(interface_name, type_name) {
         return None;
     }
 
@@ -324,14 +321,16 @@ pub(super) fn remove_interface_implementation<T: UsageProvider>(
     })
 }
 
-/// Removing an union member is safe iff there is no inline fragment making use of the member on
-/// selections on the union.
+/// Removing an union member is safe iff there is no fragment making use of the member on
+/// selections on the union, or the other way around.
 pub(super) fn remove_union_member<T: UsageProvider>(
     CheckArgs {
         change, check_params, ..
     }: CheckArgs<'_, '_, T>,
 ) -> Option<CheckDiagnostic> {
-    if !check_params.field_usage.type_condition_is_used(&change.path) {
+    let (union_name, member_name) = change.path.split_once('.')?;
+
+    if !check_params.types_are_related_by_type_condition(union_name, member_name) {
         return None;
     }
 
@@ -358,8 +357,7 @@ pub(crate) fn remove_object_type<T: UsageProvider>(args: CheckArgs<'_, '_, T>) -
     for interface_name in src.iter_interface_implementations(type_name) {
         if args
             .check_params
-            .field_usage
-            .type_condition_is_used(&format!("{interface_name}.{type_name}"))
+            .types_are_related_by_type_condition(interface_name, type_name)
         {
             return Some(CheckDiagnostic {
                 message: format!(
-- 
2.43.0


From ca48a4baaa11271a7ff9b23466fc46875898eb70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:15 +0000
Subject: [PATCH 45/86] fix: flag removed enum values used inside of lists and
 input objects

---
 .../src/aggregate_field_usage.rs              | 29 +++++++-----
 crates/operation-checks/src/operation.rs      | 15 +++++--
 .../src/operation/async_graphql.rs            | 44 +++++++++++++------
 3 files changed, 61 insertions(+), 27 deletions(-)

diff --git a/crates/operation-checks/src/aggregate_field_usage.rs b/crates/operation-checks/src/aggregate_field_usage.rs
index 58513af..8a41720 100644
--- a/crates/operation-checks/src/aggregate_field_usage.rs
+++ b/crates/operation-checks/src/aggregate_field_usage.rs
@@ -155,7 +155,19 @@ impl FieldUsage {
         }
     }
 
-    fn register_enum_value_usage(&mut self, enum_and_value: String) {
+    /// Register the usage of an enum literal inside of a value of the type `type_name`.
+    fn register_enum_literal_usage(&mut self, type_name: &str, literal: &EnumLiteral, schema: &schema::Schema) {
+        let mut enum_type_name = type_name;
+
+        for field_name in &literal.input_fields {
+            let Some(field_id) = schema.find_field(enum_type_name, field_name) else {
+                return;
+            };
+
+            enum_type_name = &schema[field_id].base_type;
+        }
+
+        let enum_and_value = [enum_type_name, literal.value.as_str()].join(".");
         *self.count_per_enum_value.entry(enum_and_value).or_insert(0) += self.increment;
     }
 
@@ -176,8 +188,8 @@ impl FieldUsage {
 
 /// Given a GraphQL query and the corresponding schema, count the number of times each schema field is used.
 pub fn aggregate_field_usage(query: &Operation, schema: &schema::Schema, usage: &mut FieldUsage) {
-    for used_enum_value in &query.enum_values_in_variable_defaults {
-        usage.register_enum_value_usage(used_enum_value.clone());
+    for (variable_type, literal) in &query.enum_values_in_variable_defaults {
+        usage.register_enum_literal_usage(variable_type, literal, schema);
     }
 
     let ty = match query.operation_type {
@@ -214,20 +226,15 @@ fn aggregate_field_usage_inner(
 
                 usage.register_field_usage(field_id);
 
-                for super::operation::Argument {
-                    name,
-                    enum_literal_value,
-                } in arguments
-                {
+                for super::operation::Argument { name, enum_literals } in arguments {
                     let Some(argument_id) = schema.find_argument((parent_type_name, field_name, name)) else {
                         continue;
                     };
 
                     usage.register_argument_usage(argument_id);
 
-                    if let Some(enum_value) = enum_literal_value {
-                        let enum_type_name = schema[argument_id].base_type.as_str();
-                        usage.register_enum_value_usage([enum_type_name, enum_value.as_str()].join("."));
+                    for literal in enum_literals {
+                        usage.register_enum_literal_usage(&schema[argument_id].base_type, literal, schema);
                     }
                 }
 
diff --git a/crates/operation-checks/src/operation.rs b/crates/operation-checks/src/operation.rs
index abc37b1..466d54c 100644
--- a/crates/operation-checks/src/operation.rs
+++ b/crates/operation-checks/src/operation.rs
@@ -17,7 +17,8 @@ pub struct Operation {
     /// (parent selection, selection)
     pub(crate) selections: Vec<(SelectionId, Selection)>,
 
-    pub(crate) enum_values_in_variable_defaults: Vec<String>,
+    /// (type of the variable, enum literal)
+    pub(crate) enum_values_in_variable_defaults: Vec<(String, EnumLiteral)>,
 }
 
 #[derive(Debug)]
@@ -36,8 +37,16 @@ pub enum OperationType {
 #[derive(Debug)]
 pub(crate) struct Argument {
     pub(crate) name: String,
-    /// Some(_) if the argument value is an enum literal.
-    pub(crate) enum_literal_value: Option<String>,
+    /// The enum literals in the argument value, at any depth.
+    pub(crate) enum_literals: Vec<EnumLiteral>,
+}
+
+/// An enum literal inside of a value.
+#[derive(Debug)]
+pub(crate) struct EnumLiteral {
+    /// The names of the input object fields to go through to get to the literal.
+    pub(crate) input_fields: Vec<String>,
+    pub(crate) value: String,
 }
 
 #[derive(Debug)]
diff --git a/crates/operation-checks/src/operation/async_graphql.rs b/crates/operation-checks/src/operation/async_graphql.rs
index 2ed31b0..46dc8b6 100644
--- a/crates/operation-checks/src/operation/async_graphql.rs
+++ b/crates/operation-checks/src/operation/async_graphql.rs
@@ -1,6 +1,6 @@
 use super::*;
-use async_graphql_parser::{Positioned, types::ExecutableDocument};
-use async_graphql_value::ConstValue;
+use async_graphql_parser::types::ExecutableDocument;
+use async_graphql_value::Value;
 
 impl From<ExecutableDocument> for super::Operation {
     fn from(value: ExecutableDocument) -> Self {
@@ -39,13 +39,11 @@ impl From<ExecutableDocument> for super::Operation {
         selection_id_counter += 1;
 
         for variable in &operation.node.variable_definitions {
-            if let Some(Positioned {
-                node: ConstValue::Enum(enum_value),
-                ..
-            }) = &variable.node.default_value
-            {
+            if let Some(default_value) = &variable.node.default_value {
                 let (base, _) = crate::schema::extract_type(&variable.node.var_type.node);
-                enum_values_in_variable_defaults.push([base.as_str(), enum_value.as_str()].join("."));
+                let mut literals = Vec::new();
+                collect_enum_literals(&default_value.node.clone().into_value(), &mut Vec::new(), &mut literals);
+                enum_values_in_variable_defaults.extend(literals.into_iter().map(|literal| (base.clone(), literal)));
             }
         }
 
@@ -66,6 +64,28 @@ impl From<ExecutableDocument> for super::Operation {
     }
 }
 
+fn collect_enum_literals(value: &Value, input_fields: &mut Vec<String>, literals: &mut Vec<EnumLiteral>) {
+    match value {
+        Value::Enum(value) => literals.push(EnumLiteral {
+            input_fields: input_fields.clone(),
+            value: value.to_string(),
+        }),
+        Value::List(items) => {
+            for item in items {
+                collect_enum_literals(item, input_fields, literals);
+            }
+        }
+        Value::Object(fields) => {
+            for (name, value) in fields {
+                input_fields.push(name.to_string());
+                collect_enum_literals(value, input_fields, literals);
+                input_fields.pop();
+            }
+        }
+        _ => (),
+    }
+}
+
 fn ingest_selection(
     counter: &mut usize,
     selection: &async_graphql_parser::types::Selection,
@@ -94,14 +114,12 @@ fn ingest_selection(
                     .arguments
                     .iter()
                     .map(|(name, value)| {
-                        let enum_literal_value = match &value.node {
-                            async_graphql_value::Value::Enum(val) => Some(val.to_string()),
-                            _ => None,
-                        };
+                        let mut enum_literals = Vec::new();
+                        collect_enum_literals(&value.node, &mut Vec::new(), &mut enum_literals);
 
                         Argument {
                             name: name.node.to_string(),
-                            enum_literal_value,
+                            enum_literals,
                         }
                     })
                     .collect(),
-- 
2.43.0


From a9a3844794cab49341e52fd557b47fb568e7670a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:15 +0000
Subject: [PATCH 46/86] fix: do not flag new required input fields which have a
 default

---
 crates/operation-checks/src/check/rules.rs          | 2 +-
 crates/operation-checks/src/schema.rs               | 6 ++++++
 crates/operation-checks/src/schema/async_graphql.rs | 3 +++
 3 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/crates/operation-checks/src/check/rules.rs b/crates/operation-checks/src/check/rules.rs
index 8bb82cd..d9b654a 100644
--- a/crates/operation-checks/src/check/rules.rs
+++ b/crates/operation-checks/src/check/rules.rs
@@ -118,7 +118,7 @@ pub(super) fn add_field<T: UsageProvider>(
 
     let field_id = check_params.target.find_field(type_name, field_name)?;
 
-    if !check_params.target[field_id].is_required() {
+    if !check_params.target[field_id].is_required_without_default_value() {
         return None;
     }
 
diff --git a/crates/operation-checks/src/schema.rs b/crates/operation-checks/src/schema.rs
index 2e89d10..2a32fa9 100644
--- a/crates/operation-checks/src/schema.rs
+++ b/crates/operation-checks/src/schema.rs
@@ -109,6 +109,8 @@ pub struct SchemaField {
     /// The type of the field without any wrapping type (! and []).
     pub(crate) base_type: String,
     pub(crate) wrappers: WrappingTypes,
+    /// Only for input object fields.
+    pub(crate) has_default: bool,
 }
 
 impl SchemaField {
@@ -119,6 +121,10 @@ impl SchemaField {
     pub(crate) fn is_required(&self) -> bool {
         self.wrappers.is_nonnull()
     }
+
+    pub(crate) fn is_required_without_default_value(&self) -> bool {
+        self.is_required() && !self.has_default
+    }
 }
 
 impl PartialOrd for SchemaField {
diff --git a/crates/operation-checks/src/schema/async_graphql.rs b/crates/operation-checks/src/schema/async_graphql.rs
index adef632..0d21986 100644
--- a/crates/operation-checks/src/schema/async_graphql.rs
+++ b/crates/operation-checks/src/schema/async_graphql.rs
@@ -51,6 +51,7 @@ impl From<ServiceDocument> for schema::Schema {
                                     field_name: field_name.to_string(),
                                     base_type,
                                     wrappers,
+                                    has_default: false,
                                 });
 
                                 push_arguments(type_name, &field.node, &mut field_arguments);
@@ -69,6 +70,7 @@ impl From<ServiceDocument> for schema::Schema {
                                     field_name: field.node.name.node.to_string(),
                                     base_type,
                                     wrappers,
+                                    has_default: false,
                                 });
 
                                 push_arguments(type_name, &field.node, &mut field_arguments);
@@ -84,6 +86,7 @@ impl From<ServiceDocument> for schema::Schema {
                                     field_name: field.node.name.node.to_string(),
                                     base_type,
                                     wrappers,
+                                    has_default: field.node.default_value.is_some(),
                                 });
                             }
                         }
-- 
2.43.0


From 9a2d4ec4aa55490d0cb70832d5200a5ee666d17b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:15 +0000
Subject: [PATCH 47/86] fix: do not flag removed defaults of arguments which
 are not required

---
 crates/operation-checks/src/check/rules.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/crates/operation-checks/src/check/rules.rs b/crates/operation-checks/src/check/rules.rs
index d9b654a..312bc65 100644
--- a/crates/operation-checks/src/check/rules.rs
+++ b/crates/operation-checks/src/check/rules.rs
@@ -422,6 +422,14 @@ pub(crate) fn remove_field_argument_default<T: UsageProvider>(args: CheckArgs<'_
         return None;
     }
 
+    let mut segments = path.split('.');
+    let argument_path = (segments.next()?, segments.next()?, segments.next()?);
+    let argument_id = args.check_params.target.find_argument(argument_path)?;
+
+    if !args.check_params.target[argument_id].is_required() {
+        return None;
+    }
+
     Some(CheckDiagnostic {
         message: format!("The default value for required argument `{path}` was removed but some queries leave it out.",),
         severity: Severity::Error,
-- 
2.43.0


From c7d40ccf04f020b1c970c2c3a6418c7b17f804fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:50 +0000
Subject: [PATCH 48/86] fix: tell apart arguments which became required and
 arguments whose items did

---
 crates/operation-checks/src/check/rules.rs    | 38 +++++++++++++------
 .../src/schema/wrapping_types.rs              | 11 ++++++
 2 files changed, 37 insertions(+), 12 deletions(-)

diff --git a/crates/operation-checks/src/check/rules.rs b/crates/operation-checks/src/check/rules.rs
index 312bc65..0438cec 100644
--- a/crates/operation-checks/src/check/rules.rs
+++ b/crates/operation-checks/src/check/rules.rs
@@ -163,27 +163,41 @@ pub(super) fn change_field_argument_type<T: UsageProvider>(
             let src_arg = &check_params.source[src_id];
             let target_arg = &check_params.target[target_id];
 
+            let became_required = || {
+                Some(CheckDiagnostic {
+                    message: format!(
+                        "The argument `{}` became required, but clients are not providing it.",
+                        change.path
+                    ),
+                    severity: Severity::Error,
+                    path: change.path.clone(),
+                    change_kind: change.kind,
+                })
+            };
+
+            // Whatever else changed, clients leaving it out are broken.
+            if !src_arg.is_required() && target_arg.is_required_without_default_value() {
+                return became_required();
+            }
+
             if src_arg.base_type != target_arg.base_type {
                 break 'refine; // type change overrides arity change
             }
 
             match src_arg.wrappers.compare(&target_arg.wrappers) {
                 crate::schema::WrapperTypesComparison::RemovedNonNull => return None,
-                crate::schema::WrapperTypesComparison::AddedNonNull if target_arg.has_default => {
+                // The argument can still be left out.
+                crate::schema::WrapperTypesComparison::AddedNonNull
+                    if src_arg.wrappers.to_nonnull() == target_arg.wrappers =>
+                {
                     return None;
                 }
-                crate::schema::WrapperTypesComparison::AddedNonNull => {
-                    return Some(CheckDiagnostic {
-                        message: format!(
-                            "The argument `{}` became required, but clients are not providing it.",
-                            change.path
-                        ),
-                        severity: Severity::Error,
-                        path: change.path.clone(),
-                        change_kind: change.kind,
-                    });
+                // The items of a list became required.
+                crate::schema::WrapperTypesComparison::AddedNonNull if check_params.argument_is_used(&change.path) => {
+                    return became_required();
                 }
-                crate::schema::WrapperTypesComparison::NoChange
+                crate::schema::WrapperTypesComparison::AddedNonNull
+                | crate::schema::WrapperTypesComparison::NoChange
                 | crate::schema::WrapperTypesComparison::NotCompatible => break 'refine,
             }
         }
diff --git a/crates/operation-checks/src/schema/wrapping_types.rs b/crates/operation-checks/src/schema/wrapping_types.rs
index f939885..7ddd024 100644
--- a/crates/operation-checks/src/schema/wrapping_types.rs
+++ b/crates/operation-checks/src/schema/wrapping_types.rs
@@ -91,6 +91,17 @@ impl WrappingTypes {
             .unwrap_or_else(|| self.inner_is_nonnull())
     }
 
+    /// The same type, but not nullable.
+    pub(crate) fn to_nonnull(mut self) -> Self {
+        if self.lists_count() == 0 {
+            self.set_inner_nonnull(true);
+        } else {
+            self.0 |= 1;
+        }
+
+        self
+    }
+
     pub(crate) fn compare(&self, target: &WrappingTypes) -> WrapperTypesComparison {
         use ListType::*;
         use WrapperTypesComparison::*;
-- 
2.43.0


From 2ea357ef08e17cad7a582864b4db45506366a800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:50 +0000
Subject: [PATCH 49/86] fix: flag removed interfaces and unions used in type
 conditions

---
 .../src/aggregate_field_usage.rs              |  4 +++-
 crates/operation-checks/src/check.rs          |  6 ++---
 crates/operation-checks/src/check/rules.rs    | 22 +++++++++++++++++++
 3 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/crates/operation-checks/src/aggregate_field_usage.rs b/crates/operation-checks/src/aggregate_field_usage.rs
index 8a41720..a4db9b3 100644
--- a/crates/operation-checks/src/aggregate_field_usage.rs
+++ b/crates/operation-checks/src/aggregate_field_usage.rs
@@ -41,7 +41,8 @@ pub struct FieldUsage {
     pub(crate) arguments_with_defaults_left_out_count: HashMap<schema::ArgumentId, u64>,
 
     /// Usage of interface implementers and union members in type conditions. The key is a string
-    /// of the form "parent_type_name.implementer_type_name"
+    /// of the form "parent_type_name.implementer_type_name", or only the name of the type in the
+    /// type condition for type conditions with any parent.
     pub(crate) type_condition_counts: HashMap<String, u64>,
 }
 
@@ -176,6 +177,7 @@ impl FieldUsage {
             .type_condition_counts
             .entry([parent_type_name, type_condition].join("."))
             .or_insert(0) += self.increment;
+        *self.type_condition_counts.entry(type_condition.to_owned()).or_insert(0) += self.increment;
     }
 
     fn register_argument_with_default_left_out(&mut self, argument_id: schema::ArgumentId) {
diff --git a/crates/operation-checks/src/check.rs b/crates/operation-checks/src/check.rs
index c5142e3..15052be 100644
--- a/crates/operation-checks/src/check.rs
+++ b/crates/operation-checks/src/check.rs
@@ -167,9 +167,9 @@ fn check_change<T: UsageProvider>(args: CheckArgs<'_, '_, T>) -> Option<CheckDia
         // which are the actual breaking changes.
         | ChangeKind::RemoveEnum
         | ChangeKind::RemoveScalar
-        | ChangeKind::RemoveInterface
-        | ChangeKind::RemoveInputObject
-        | ChangeKind::RemoveUnion => None,
+        | ChangeKind::RemoveInputObject => None,
+
+        ChangeKind::RemoveInterface | ChangeKind::RemoveUnion => rules::remove_abstract_type(args),
 
         ChangeKind::RemoveObjectType => rules::remove_object_type(args),
 
diff --git a/crates/operation-checks/src/check/rules.rs b/crates/operation-checks/src/check/rules.rs
index 0438cec..0c619f0 100644
--- a/crates/operation-checks/src/check/rules.rs
+++ b/crates/operation-checks/src/check/rules.rs
@@ -359,6 +359,28 @@ pub(super) fn remove_union_member<T: UsageProvider>(
     })
 }
 
+/// If you remove an interface or a union, it registers as a field type change for the fields that
+/// return it. But it can also be used in type conditions inside of selections on other types.
+pub(super) fn remove_abstract_type<T: UsageProvider>(
+    CheckArgs {
+        change, check_params, ..
+    }: CheckArgs<'_, '_, T>,
+) -> Option<CheckDiagnostic> {
+    if !check_params.field_usage.type_condition_is_used(&change.path) {
+        return None;
+    }
+
+    Some(CheckDiagnostic {
+        message: format!(
+            "The type `{}` was removed but it is still used by clients in type conditions.",
+            change.path
+        ),
+        severity: Severity::Error,
+        path: change.path.clone(),
+        change_kind: change.kind,
+    })
+}
+
 /// If you remove a regular object type, it registers as a field type change
 /// for the fields that return it. But that isn't the case for the root
 /// query, mutation and subscription types, so we need to check for that
-- 
2.43.0


From 438b48d1c459d74756bd36fb9c50c8bd8dcc9c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:39 +0000
Subject: [PATCH 50/86] fix: flag used types which become another kind of type

---
 crates/operation-checks/src/check.rs          | 12 ++++
 crates/operation-checks/src/check/rules.rs    | 59 +++++++++++++++++++
 crates/operation-checks/src/schema.rs         |  2 +
 .../src/schema/async_graphql.rs               |  3 +
 4 files changed, 76 insertions(+)

diff --git a/crates/operation-checks/src/check.rs b/crates/operation-checks/src/check.rs
index 15052be..3283db2 100644
--- a/crates/operation-checks/src/check.rs
+++ b/crates/operation-checks/src/check.rs
@@ -127,6 +127,18 @@ struct CheckArgs<'a, 'b, T: UsageProvider> {
 
 fn check_change<T: UsageProvider>(args: CheckArgs<'_, '_, T>) -> Option<CheckDiagnostic> {
     match args.change.kind {
+        // The type is still there, but it is another kind of type.
+        ChangeKind::RemoveObjectType
+        | ChangeKind::RemoveInterface
+        | ChangeKind::RemoveUnion
+        | ChangeKind::RemoveInputObject
+        | ChangeKind::RemoveEnum
+        | ChangeKind::RemoveScalar
+            if args.check_params.target.type_names.contains(&args.change.path) =>
+        {
+            rules::change_type_kind(args)
+        }
+
         // Not relevant for federated graphs.
         ChangeKind::ChangeMutationType
         | ChangeKind::ChangeSubscriptionType
diff --git a/crates/operation-checks/src/check/rules.rs b/crates/operation-checks/src/check/rules.rs
index 0c619f0..66799bc 100644
--- a/crates/operation-checks/src/check/rules.rs
+++ b/crates/operation-checks/src/check/rules.rs
@@ -359,6 +359,65 @@ pub(super) fn remove_union_member<T: UsageProvider>(
     })
 }
 
+/// Turning a type into another kind of type is safe iff the type is not in use, since the types of
+/// the fields and arguments where it appears do not change.
+pub(super) fn change_type_kind<T: UsageProvider>(
+    CheckArgs {
+        change,
+        check_params,
+        used_input_types,
+        ..
+    }: CheckArgs<'_, '_, T>,
+) -> Option<CheckDiagnostic> {
+    let source = check_params.source;
+    let usage = check_params.field_usage;
+    let type_name = &change.path;
+
+    let is_root_in_use = || {
+        [
+            &source.query_type_name,
+            &source.mutation_type_name,
+            &source.subscription_type_name,
+        ]
+        .contains(&type_name)
+            && source
+                .iter_fields(type_name)
+                .any(|field| check_params.field_is_used(&format!("{}.{}", type_name, field.field_name)))
+    };
+
+    let is_field_type_in_use = || {
+        source
+            .fields
+            .iter()
+            .enumerate()
+            .any(|(idx, field)| &field.base_type == type_name && usage.field_is_used(crate::schema::FieldId(idx)))
+    };
+
+    let is_input_type_in_use = || {
+        source.field_arguments.iter().enumerate().any(|(idx, argument)| {
+            &argument.base_type == type_name && usage.argument_is_used(crate::schema::ArgumentId(idx))
+        })
+    };
+
+    if !is_field_type_in_use()
+        && !is_input_type_in_use()
+        && !usage.type_condition_is_used(type_name)
+        && !is_root_in_use()
+        && !used_input_types
+            .get_or_insert_with(|| find_used_input_types(check_params))
+            .contains(type_name.as_str())
+    {
+        return None;
+    }
+
+    Some(CheckDiagnostic {
+        message: format!("The type `{type_name}` became another kind of type but it is still used by clients."),
+        severity: Severity::Error,
+        path: change.path.clone(),
+        change_kind: change.kind,
+    })
+}
+
 /// If you remove an interface or a union, it registers as a field type change for the fields that
 /// return it. But it can also be used in type conditions inside of selections on other types.
 pub(super) fn remove_abstract_type<T: UsageProvider>(
diff --git a/crates/operation-checks/src/schema.rs b/crates/operation-checks/src/schema.rs
index 2a32fa9..0cc267c 100644
--- a/crates/operation-checks/src/schema.rs
+++ b/crates/operation-checks/src/schema.rs
@@ -24,6 +24,8 @@ pub struct Schema {
     /// Invariant: sorted
     pub(crate) interface_implementations: Vec<(String, String)>,
 
+    pub(crate) type_names: HashSet<String>,
+
     pub(crate) input_objects: HashSet<String>,
 
     pub(crate) query_type_name: String,
diff --git a/crates/operation-checks/src/schema/async_graphql.rs b/crates/operation-checks/src/schema/async_graphql.rs
index 0d21986..3bae82e 100644
--- a/crates/operation-checks/src/schema/async_graphql.rs
+++ b/crates/operation-checks/src/schema/async_graphql.rs
@@ -10,6 +10,7 @@ impl From<ServiceDocument> for schema::Schema {
         let mut mutation_type_name = None;
         let mut subscription_type_name = None;
         let mut field_arguments = Vec::new();
+        let mut type_names = HashSet::new();
         let mut input_objects = HashSet::new();
         let mut interface_implementations = Vec::new();
 
@@ -31,6 +32,7 @@ impl From<ServiceDocument> for schema::Schema {
                 async_graphql_parser::types::TypeSystemDefinition::Directive(_) => (),
                 async_graphql_parser::types::TypeSystemDefinition::Type(typedef) => {
                     let type_name = typedef.node.name.node.as_str();
+                    type_names.insert(type_name.to_string());
 
                     match typedef.node.kind {
                         async_graphql_parser::types::TypeKind::Enum(_)
@@ -102,6 +104,7 @@ impl From<ServiceDocument> for schema::Schema {
         schema::Schema {
             fields,
             field_arguments,
+            type_names,
             input_objects,
             interface_implementations,
             query_type_name: query_type_name.unwrap_or_else(|| "Query".to_owned()),
-- 
2.43.0


From 58156038fd31e8312ae3b8ae6939ad42e1e2f18f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:58 +0000
Subject: [PATCH 51/86] fix: refuse sizes with characters outside ASCII instead
 of panicking

---
 crates/gateway-config/src/size_ext.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/gateway-config/src/size_ext.rs b/crates/gateway-config/src/size_ext.rs
index 424dda0..07e5d5b 100644
--- a/crates/gateway-config/src/size_ext.rs
+++ b/crates/gateway-config/src/size_ext.rs
@@ -18,6 +18,11 @@ where
         where
             E: serde::de::Error,
         {
+            // Units are ASCII, parsing a size panics on anything else.
+            if !value.is_ascii() {
+                return Err(serde::de::Error::custom(format!("invalid size: {value:?}")));
+            }
+
             Size::from_str(value).map_err(serde::de::Error::custom)
         }
 
-- 
2.43.0


From 3ca8b11830458c9586aaaab923beec2f5d399839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:58 +0000
Subject: [PATCH 52/86] fix: keep the default of
 forward_connection_init_payload in an empty websockets section and refuse
 unknown keys there

---
 crates/gateway-config/src/websockets_config.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/gateway-config/src/websockets_config.rs b/crates/gateway-config/src/websockets_config.rs
index 2ed839d..205f086 100644
--- a/crates/gateway-config/src/websockets_config.rs
+++ b/crates/gateway-config/src/websockets_config.rs
@@ -1,6 +1,6 @@
 #[derive(Debug, serde::Deserialize, Clone)]
+#[serde(default, deny_unknown_fields)]
 pub struct WebsocketsConfig {
-    #[serde(default)]
     pub forward_connection_init_payload: bool,
 }
 
-- 
2.43.0


From 7c29651109bd38c64cc8992e7a000f39d67ffd04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:58 +0000
Subject: [PATCH 53/86] fix: show the ed25519 signing algorithm under its own
 name

---
 crates/gateway-config/src/message_signatures.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/gateway-config/src/message_signatures.rs b/crates/gateway-config/src/message_signatures.rs
index 51bd081..0d57d3b 100644
--- a/crates/gateway-config/src/message_signatures.rs
+++ b/crates/gateway-config/src/message_signatures.rs
@@ -33,7 +33,7 @@ impl fmt::Display for MessageSigningAlgorithm {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         let str = match self {
             MessageSigningAlgorithm::HmacSha256 => "hmac-sha256",
-            MessageSigningAlgorithm::Ed25519 => "ed25516",
+            MessageSigningAlgorithm::Ed25519 => "ed25519",
             MessageSigningAlgorithm::EcdsaP256 => "ecdsa-p256-sha256",
             MessageSigningAlgorithm::EcdsaP384 => "ecdsa-p384-sha384",
         };
-- 
2.43.0


From d1fe234503de7da63e1cf0f3a23b7228cce98a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:58 +0000
Subject: [PATCH 54/86] fix: refuse unknown keys in the headers of message
 signatures

---
 crates/gateway-config/src/message_signatures.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/gateway-config/src/message_signatures.rs b/crates/gateway-config/src/message_signatures.rs
index 0d57d3b..0eb7208 100644
--- a/crates/gateway-config/src/message_signatures.rs
+++ b/crates/gateway-config/src/message_signatures.rs
@@ -100,7 +100,7 @@ pub enum DerivedComponent {
 
 /// Which headers to include/exclude in the signature
 #[derive(Debug, Default, Clone, PartialEq, serde::Deserialize)]
-#[serde(rename_all = "snake_case")]
+#[serde(rename_all = "snake_case", deny_unknown_fields)]
 pub struct MessageSigningHeaders {
     pub include: Option<Vec<String>>,
     pub exclude: Option<Vec<String>>,
-- 
2.43.0


From aaa7b95c1c7cefe049119d6c9ed3fb9094f257f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:58 +0000
Subject: [PATCH 55/86] fix: refuse unknown keys in preopened directories

---
 crates/gateway-config/src/hooks.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/gateway-config/src/hooks.rs b/crates/gateway-config/src/hooks.rs
index 2294fa8..38fd014 100644
--- a/crates/gateway-config/src/hooks.rs
+++ b/crates/gateway-config/src/hooks.rs
@@ -22,6 +22,7 @@ pub struct HooksWasiConfig {
 
 /// Configuration for a directory that is preopened for the WASI component.
 #[derive(Clone, Debug, serde::Deserialize)]
+#[serde(deny_unknown_fields)]
 pub struct PreopenedDirectory {
     /// The path on the host system that is preopened.
     pub host_path: PathBuf,
-- 
2.43.0


From bee38d96fce294fc805887a5abc9e67f9b6a02de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:10 +0000
Subject: [PATCH 56/86] fix: refuse unknown keys in deny rules of the response
 extension

---
 .../telemetry/exporters/response_extension.rs    | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/crates/gateway-config/src/telemetry/exporters/response_extension.rs b/crates/gateway-config/src/telemetry/exporters/response_extension.rs
index 9d68464..b34820a 100644
--- a/crates/gateway-config/src/telemetry/exporters/response_extension.rs
+++ b/crates/gateway-config/src/telemetry/exporters/response_extension.rs
@@ -1,7 +1,7 @@
 use std::str::FromStr;
 
 use ascii::AsciiString;
-use serde::Deserialize;
+use serde::{Deserialize, Deserializer};
 
 #[derive(Debug, Clone, PartialEq, Deserialize)]
 #[serde(default, deny_unknown_fields)]
@@ -33,10 +33,22 @@ impl Default for ResponseExtensionExporterConfig {
 pub enum AccessControl {
     #[serde(rename = "header")]
     Header(HeaderAccessControl),
-    #[serde(rename = "deny")]
+    #[serde(rename = "deny", deserialize_with = "deserialize_no_fields")]
     Deny,
 }
 
+/// Internally tagged unit variants would otherwise accept any other key.
+fn deserialize_no_fields<'de, D>(deserializer: D) -> Result<(), D::Error>
+where
+    D: Deserializer<'de>,
+{
+    #[derive(Deserialize)]
+    #[serde(deny_unknown_fields)]
+    struct NoFields {}
+
+    NoFields::deserialize(deserializer).map(|_| ())
+}
+
 #[derive(Debug, Clone, PartialEq, Deserialize)]
 #[serde(deny_unknown_fields)]
 pub struct HeaderAccessControl {
-- 
2.43.0


From a8077c1b478c04c1a909002a91af92e7696a51d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:10 +0000
Subject: [PATCH 57/86] fix: read a configuration file named relative to the
 loader's current directory from there

---
 crates/gateway-config/src/lib.rs | 29 ++++++++++++-----------------
 1 file changed, 12 insertions(+), 17 deletions(-)

diff --git a/crates/gateway-config/src/lib.rs b/crates/gateway-config/src/lib.rs
index 87c29c4..201ac68 100644
--- a/crates/gateway-config/src/lib.rs
+++ b/crates/gateway-config/src/lib.rs
@@ -72,17 +72,20 @@ impl Loader {
         }
     }
 
+    fn absolute_current_dir(&self) -> Result<PathBuf, String> {
+        match self.current_dir.as_ref() {
+            Some(cdir) => std::path::absolute(cdir),
+            None => std::env::current_dir(),
+        }
+        .map_err(|err| format!("Could not detect current directory: {err}"))
+    }
+
     pub fn load<P: AsRef<Path>>(self, path: Option<P>) -> Result<Option<Config>, String> {
         let path = match path {
-            Some(path) => path.as_ref().to_path_buf(),
+            Some(path) if path.as_ref().is_absolute() => path.as_ref().to_path_buf(),
+            Some(path) => self.absolute_current_dir()?.join(path),
             None => {
-                let cdir = match self.current_dir.as_ref() {
-                    Some(cdir) => cdir.clone(),
-                    None => {
-                        std::env::current_dir().map_err(|err| format!("Could not detect current directory: {err}"))?
-                    }
-                };
-                let path = cdir.join("grafbase.toml");
+                let path = self.absolute_current_dir()?.join("grafbase.toml");
                 if path.exists() {
                     path
                 } else {
@@ -150,15 +153,7 @@ impl Loader {
         let mut config =
             Config::deserialize(raw_config).map_err(|err| format!("Failed to parse configuration: {err}"))?;
 
-        config.path = Some(if path.is_relative() {
-            let cdir = match self.current_dir.as_ref() {
-                Some(cdir) => cdir.clone(),
-                None => std::env::current_dir().map_err(|err| format!("Could not detect current directory: {err}"))?,
-            };
-            cdir.join(&path)
-        } else {
-            path
-        });
+        config.path = Some(path);
 
         Ok(Some(
             config
-- 
2.43.0


From bf02b11502271b258a61a6318d0b38f89aa31f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:34 +0000
Subject: [PATCH 58/86] fix: truncate exported log values at a character
 boundary

Slicing at a fixed byte offset panics when a multi-byte character straddles it.
---
 crates/telemetry/src/otel/logs/bridge.rs | 27 ++++++++++++++----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/crates/telemetry/src/otel/logs/bridge.rs b/crates/telemetry/src/otel/logs/bridge.rs
index e3b9e00..19b8e26 100644
--- a/crates/telemetry/src/otel/logs/bridge.rs
+++ b/crates/telemetry/src/otel/logs/bridge.rs
@@ -123,12 +123,7 @@ where
 
         // Set the log body (message) with size limit
         let message = visitor.message.unwrap_or_else(|| metadata.name().to_string());
-        let truncated_message = if message.len() > MAX_MESSAGE_SIZE {
-            format!("{}...[truncated]", &message[..MAX_MESSAGE_SIZE])
-        } else {
-            message
-        };
-        log_record.set_body(AnyValue::from(truncated_message));
+        log_record.set_body(AnyValue::from(truncate(message, MAX_MESSAGE_SIZE)));
 
         // Add metadata using semantic conventions
         if let Some(module_path) = metadata.module_path() {
@@ -172,6 +167,20 @@ where
     }
 }
 
+/// Truncates to at most `max_size` bytes, without splitting a character.
+fn truncate(s: String, max_size: usize) -> String {
+    if s.len() <= max_size {
+        return s;
+    }
+
+    let mut end = max_size;
+    while !s.is_char_boundary(end) {
+        end -= 1;
+    }
+
+    format!("{}...[truncated]", &s[..end])
+}
+
 /// Visitor to extract fields from tracing events with production safety limits
 struct LogRecordVisitor {
     message: Option<String>,
@@ -200,11 +209,7 @@ impl LogRecordVisitor {
     }
 
     fn truncate_string(s: String) -> String {
-        if s.len() > MAX_FIELD_VALUE_SIZE {
-            format!("{}...[truncated]", &s[..MAX_FIELD_VALUE_SIZE])
-        } else {
-            s
-        }
+        truncate(s, MAX_FIELD_VALUE_SIZE)
     }
 }
 
-- 
2.43.0


From 36491145213ce0f13cff4d4226a0656f29475179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:34 +0000
Subject: [PATCH 59/86] fix: apply the message size limit to exported log
 messages

The visitor cut messages at the limit of field values, so MAX_MESSAGE_SIZE was never reached.
---
 crates/telemetry/src/otel/logs/bridge.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/telemetry/src/otel/logs/bridge.rs b/crates/telemetry/src/otel/logs/bridge.rs
index 19b8e26..bd4839f 100644
--- a/crates/telemetry/src/otel/logs/bridge.rs
+++ b/crates/telemetry/src/otel/logs/bridge.rs
@@ -219,7 +219,7 @@ impl Visit for LogRecordVisitor {
         let formatted_value = format!("{:?}", value);
 
         if field_name == "message" {
-            self.message = Some(Self::truncate_string(formatted_value));
+            self.message = Some(formatted_value);
         } else {
             self.add_field(
                 field_name.to_string(),
@@ -232,7 +232,7 @@ impl Visit for LogRecordVisitor {
         let field_name = field.name();
 
         if field_name == "message" {
-            self.message = Some(Self::truncate_string(value.to_string()));
+            self.message = Some(value.to_string());
         } else {
             self.add_field(
                 field_name.to_string(),
-- 
2.43.0


From a1c5191ec6a6b7010c8219d44a7d7adb774397fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:18 +0000
Subject: [PATCH 60/86] fix: report gRPC exporter headers that are no valid
 metadata

Such a header in the configuration made the gateway panic at startup.
---
 crates/telemetry/src/otel/exporter.rs | 23 ++++++++++++++---------
 crates/telemetry/src/otel/logs.rs     |  2 +-
 crates/telemetry/src/otel/metrics.rs  |  2 +-
 crates/telemetry/src/otel/traces.rs   |  2 +-
 4 files changed, 17 insertions(+), 12 deletions(-)

diff --git a/crates/telemetry/src/otel/exporter.rs b/crates/telemetry/src/otel/exporter.rs
index 499d6bb..06a1a90 100644
--- a/crates/telemetry/src/otel/exporter.rs
+++ b/crates/telemetry/src/otel/exporter.rs
@@ -6,16 +6,21 @@ use tonic::{
     transport::ClientTlsConfig,
 };
 
-pub(super) fn build_metadata(headers: Headers) -> MetadataMap {
-    let metadata = tonic::metadata::MetadataMap::with_capacity(headers.len());
+pub(super) fn build_metadata(headers: Headers) -> Result<MetadataMap, TracingError> {
+    let mut metadata = MetadataMap::with_capacity(headers.len());
 
-    headers
-        .into_iter()
-        .fold(metadata, |mut acc, (header_name, header_value)| {
-            let key = MetadataKey::from_str(header_name.as_str()).unwrap();
-            acc.insert(key, header_value.as_str().parse().unwrap());
-            acc
-        })
+    for (header_name, header_value) in headers {
+        let key = MetadataKey::from_str(header_name.as_str())
+            .map_err(|_| TracingError::Internal(format!("invalid gRPC exporter header name: {header_name:?}")))?;
+        let value = header_value
+            .as_str()
+            .parse()
+            .map_err(|_| TracingError::Internal(format!("invalid value for gRPC exporter header {header_name:?}")))?;
+
+        metadata.insert(key, value);
+    }
+
+    Ok(metadata)
 }
 
 pub(super) fn build_tls_config(tls: Option<OtlpExporterTlsConfig>) -> Result<ClientTlsConfig, TracingError> {
diff --git a/crates/telemetry/src/otel/logs.rs b/crates/telemetry/src/otel/logs.rs
index 047ee3a..5d44ecd 100644
--- a/crates/telemetry/src/otel/logs.rs
+++ b/crates/telemetry/src/otel/logs.rs
@@ -34,7 +34,7 @@ pub(super) fn build_logs_provider(
                         .unwrap_or("http://127.0.0.1:4317"),
                 )
                 .with_timeout(exporter_timeout)
-                .with_metadata(build_metadata(grpc_config.headers))
+                .with_metadata(build_metadata(grpc_config.headers)?)
                 .with_tls_config(build_tls_config(grpc_config.tls)?)
                 .build()
                 .map_err(|e| TracingError::LogsExporterSetup(e.to_string()))?,
diff --git a/crates/telemetry/src/otel/metrics.rs b/crates/telemetry/src/otel/metrics.rs
index 0478218..99e44f0 100644
--- a/crates/telemetry/src/otel/metrics.rs
+++ b/crates/telemetry/src/otel/metrics.rs
@@ -92,7 +92,7 @@ fn attach_reader(
                     .unwrap_or("http://127.0.0.1:4317"),
             )
             .with_timeout(exporter_timeout)
-            .with_metadata(build_metadata(grpc_config.headers))
+            .with_metadata(build_metadata(grpc_config.headers)?)
             .with_tls_config(build_tls_config(grpc_config.tls)?)
             .with_temporality(Temporality::Delta)
             .build()
diff --git a/crates/telemetry/src/otel/traces.rs b/crates/telemetry/src/otel/traces.rs
index 624abc3..4644dd4 100644
--- a/crates/telemetry/src/otel/traces.rs
+++ b/crates/telemetry/src/otel/traces.rs
@@ -74,7 +74,7 @@ fn setup_exporters(
                         .unwrap_or("http://127.0.0.1:4317"),
                 )
                 .with_timeout(exporter_timeout)
-                .with_metadata(build_metadata(grpc_config.headers))
+                .with_metadata(build_metadata(grpc_config.headers)?)
                 .with_tls_config(build_tls_config(grpc_config.tls)?)
                 .build()
                 .map_err(|e| TracingError::SpanExporterSetup(e.to_string()))?,
-- 
2.43.0


From 4e457a8ac262262d6e861724b0c5e01a0a82e148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:50 +0000
Subject: [PATCH 61/86] fix: apply the collection limits of links and of event
 and link attributes

max_links_per_span, max_attributes_per_event and max_attributes_per_link had no effect.
---
 crates/telemetry/src/otel/traces.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/telemetry/src/otel/traces.rs b/crates/telemetry/src/otel/traces.rs
index 4644dd4..e8e4c87 100644
--- a/crates/telemetry/src/otel/traces.rs
+++ b/crates/telemetry/src/otel/traces.rs
@@ -34,7 +34,9 @@ where
     builder = builder
         .with_max_events_per_span(config.tracing.collect.max_events_per_span as u32)
         .with_max_attributes_per_span(config.tracing.collect.max_attributes_per_span as u32)
-        .with_max_events_per_span(config.tracing.collect.max_events_per_span as u32)
+        .with_max_links_per_span(config.tracing.collect.max_links_per_span as u32)
+        .with_max_attributes_per_event(config.tracing.collect.max_attributes_per_event as u32)
+        .with_max_attributes_per_link(config.tracing.collect.max_attributes_per_link as u32)
         .with_resource(resource);
 
     Ok(setup_exporters(builder, config)?.build())
-- 
2.43.0


From 75ca298147bd5bc539472cc5cda563437ae6eb08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:04 +0000
Subject: [PATCH 62/86] fix: do not wrap collection limits above u32::MAX

A limit of 4294967296 was taken for 0.
---
 crates/telemetry/src/otel/traces.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/crates/telemetry/src/otel/traces.rs b/crates/telemetry/src/otel/traces.rs
index e8e4c87..75ae78f 100644
--- a/crates/telemetry/src/otel/traces.rs
+++ b/crates/telemetry/src/otel/traces.rs
@@ -31,17 +31,23 @@ where
         builder = builder.with_sampler(base_sampler);
     }
 
+    let collect = &config.tracing.collect;
+
     builder = builder
-        .with_max_events_per_span(config.tracing.collect.max_events_per_span as u32)
-        .with_max_attributes_per_span(config.tracing.collect.max_attributes_per_span as u32)
-        .with_max_links_per_span(config.tracing.collect.max_links_per_span as u32)
-        .with_max_attributes_per_event(config.tracing.collect.max_attributes_per_event as u32)
-        .with_max_attributes_per_link(config.tracing.collect.max_attributes_per_link as u32)
+        .with_max_events_per_span(limit(collect.max_events_per_span))
+        .with_max_attributes_per_span(limit(collect.max_attributes_per_span))
+        .with_max_links_per_span(limit(collect.max_links_per_span))
+        .with_max_attributes_per_event(limit(collect.max_attributes_per_event))
+        .with_max_attributes_per_link(limit(collect.max_attributes_per_link))
         .with_resource(resource);
 
     Ok(setup_exporters(builder, config)?.build())
 }
 
+fn limit(value: usize) -> u32 {
+    u32::try_from(value).unwrap_or(u32::MAX)
+}
+
 fn setup_exporters(
     mut tracer_provider_builder: TracerProviderBuilder,
     config: &TelemetryConfig,
-- 
2.43.0


From 8cf70ff96ca7bbd7681bca47f633b993a3a2bb9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:22 +0000
Subject: [PATCH 63/86] fix: keep null data of any response in the status of a
 stream

Only the first response with errors decided whether data was reported as null.
---
 crates/telemetry/src/graphql.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/crates/telemetry/src/graphql.rs b/crates/telemetry/src/graphql.rs
index da386b4..b0e19b4 100644
--- a/crates/telemetry/src/graphql.rs
+++ b/crates/telemetry/src/graphql.rs
@@ -138,12 +138,16 @@ impl GraphqlResponseStatus {
             (_, s @ Self::RequestError { .. }) => s,
             (Self::Success, s @ Self::FieldError { .. }) => s,
             (s @ Self::FieldError { .. }, Self::Success) => s,
-            (Self::FieldError { count, data_is_null }, Self::FieldError { count: extra_count, .. }) => {
+            (
+                Self::FieldError { count, data_is_null },
                 Self::FieldError {
-                    count: count + extra_count,
-                    data_is_null,
-                }
-            }
+                    count: extra_count,
+                    data_is_null: extra_data_is_null,
+                },
+            ) => Self::FieldError {
+                count: count + extra_count,
+                data_is_null: data_is_null || extra_data_is_null,
+            },
             (Self::Success, Self::Success) => Self::Success,
         }
     }
-- 
2.43.0


From 97ed3ae0b9237ae2961b12f920493dfbf1714435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:05 +0000
Subject: [PATCH 64/86] hook: grafbase-sdk can be driven by a harness in place
 of the gateway (cfg vmc_hooks)

---
 crates/grafbase-sdk/src/lib.rs     |  9 +++++++++
 crates/grafbase-sdk/src/wit/mod.rs | 30 ++++++++++++++++++++++++++++++
 2 files changed, 39 insertions(+)

diff --git a/crates/grafbase-sdk/src/lib.rs b/crates/grafbase-sdk/src/lib.rs
index 2a9d9fa..80c30cf 100644
--- a/crates/grafbase-sdk/src/lib.rs
+++ b/crates/grafbase-sdk/src/lib.rs
@@ -2,6 +2,7 @@
 #![doc = "# Features"]
 #![doc = document_features::document_features!()]
 #![deny(missing_docs, unused_crate_dependencies)]
+#![allow(unexpected_cfgs)]
 
 mod cbor;
 mod component;
@@ -39,6 +40,14 @@ pub static SDK_VERSION: [u8; 6] = *include_bytes!(concat!(env!("OUT_DIR"), "/sdk
 
 wit::export!(Component with_types_in wit);
 
+// Verification hook: gives a harness outside of this crate access to it.
+#[cfg(vmc_hooks)]
+#[doc(hidden)]
+#[allow(missing_docs, clippy::all)]
+pub mod vmc_hooks {
+    include!(env!("VMC_HOOKS_GRAFBASE_SDK"));
+}
+
 mod sealed {
     pub trait Sealed {}
 }
diff --git a/crates/grafbase-sdk/src/wit/mod.rs b/crates/grafbase-sdk/src/wit/mod.rs
index 5fcc7b1..67adba9 100644
--- a/crates/grafbase-sdk/src/wit/mod.rs
+++ b/crates/grafbase-sdk/src/wit/mod.rs
@@ -6,6 +6,7 @@
 // We can add custom derives in the generate macro, but it's applied on everything.
 mod resolver_types;
 
+#[cfg(not(vmc_hooks))]
 wit_bindgen::generate!({
     skip: ["register-extension"],
     path: "./wit/since_0_23_0/",
@@ -15,6 +16,26 @@ wit_bindgen::generate!({
     },
 });
 
+// Verification hook: the resources of the gateway are stand-ins that live in the harness.
+#[cfg(vmc_hooks)]
+use crate::vmc_hooks::host;
+#[cfg(vmc_hooks)]
+wit_bindgen::generate!({
+    skip: ["register-extension"],
+    path: "./wit/since_0_23_0/",
+    world: "sdk",
+    with: {
+        "grafbase:sdk/resolver-types": resolver_types,
+        "grafbase:sdk/headers": host::headers,
+        "grafbase:sdk/event-queue": host::event_queue,
+        "grafbase:sdk/context": host::context,
+        "grafbase:sdk/cache": host::cache,
+        "grafbase:sdk/logger": host::logger,
+        "grafbase:sdk/http-client": host::http_client,
+        "grafbase:sdk/postgres": host::postgres,
+    },
+});
+
 pub(crate) use exports::grafbase::sdk::authentication::{Guest as AuthenticationGuest, PublicMetadataEndpoint};
 pub(crate) use exports::grafbase::sdk::authorization::Guest as AuthorizationGuest;
 pub(crate) use exports::grafbase::sdk::contracts::Guest as ContractsGuest;
@@ -25,24 +46,33 @@ pub(crate) use grafbase::sdk::authorization_types::{
     AuthorizationDecisions, AuthorizationDecisionsDenySome, AuthorizationOutput, QueryElement, QueryElements,
     ResponseElement, ResponseElements,
 };
+#[cfg(not(vmc_hooks))]
 pub(crate) use grafbase::sdk::cache::*;
+#[cfg(not(vmc_hooks))]
 pub(crate) use grafbase::sdk::context::*;
 pub(crate) use grafbase::sdk::contracts_types::{Contract, GraphqlSubgraph};
 pub(crate) use grafbase::sdk::error::{Error, ErrorResponse};
+#[cfg(not(vmc_hooks))]
 pub(crate) use grafbase::sdk::event_queue::EventQueue;
 pub(crate) use grafbase::sdk::event_types::{
     CacheStatus, Event, ExecutedHttpRequest, ExecutedOperation, ExecutedSubgraphRequest, ExtensionEvent, FieldError,
     GraphqlResponseStatus, OperationType, RequestError, SubgraphRequestExecutionKind, SubgraphResponse,
 };
 pub(crate) use grafbase::sdk::grpc::*;
+#[cfg(not(vmc_hooks))]
 pub(crate) use grafbase::sdk::headers::HeaderError;
 pub(crate) use grafbase::sdk::hooks_types::{HttpRequestParts, OnRequestOutput, OnResponseOutput};
+#[cfg(not(vmc_hooks))]
 pub(crate) use grafbase::sdk::http_client::HttpClient;
 pub(crate) use grafbase::sdk::http_types::*;
 pub(crate) use grafbase::sdk::kafka_client::*;
+#[cfg(not(vmc_hooks))]
 pub(crate) use grafbase::sdk::logger::*;
 pub use grafbase::sdk::nats_client::*;
+#[cfg(not(vmc_hooks))]
 pub use grafbase::sdk::postgres::*;
 pub(crate) use grafbase::sdk::schema::*;
 pub(crate) use grafbase::sdk::token::Token;
 pub(crate) use resolver_types::{ArgumentsId, Data, Field, FieldId, Response, SelectionSet, SubscriptionItem};
+#[cfg(vmc_hooks)]
+pub use host::{cache::*, context::*, event_queue::EventQueue, headers::HeaderError, http_client::HttpClient, logger::*, postgres::*};
-- 
2.43.0


From 4aaf6bfc242c4cfe197ad8b6cdeb491a19e244ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:05 +0000
Subject: [PATCH 65/86] fix: a header refused by ErrorResponse::push_header
 must not drop the headers already there

---
 crates/grafbase-sdk/src/types/error_response.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/crates/grafbase-sdk/src/types/error_response.rs b/crates/grafbase-sdk/src/types/error_response.rs
index 4e30f72..af5c393 100644
--- a/crates/grafbase-sdk/src/types/error_response.rs
+++ b/crates/grafbase-sdk/src/types/error_response.rs
@@ -59,13 +59,13 @@ impl ErrorResponse {
 
     /// Add a header to the error response.
     pub fn push_header(&mut self, name: &str, value: &[u8]) -> Result<(), wit::HeaderError> {
-        let headers = if let Some(headers) = self.0.headers.take() {
-            headers
+        if let Some(headers) = &self.0.headers {
+            headers.append(name, value)?;
         } else {
-            wit::Headers::new()
-        };
-        headers.append(name, value)?;
-        self.0.headers = Some(headers);
+            let headers = wit::Headers::new();
+            headers.append(name, value)?;
+            self.0.headers = Some(headers);
+        }
         Ok(())
     }
 
-- 
2.43.0


From 99aa3b2d741df0849ddc6ed5f6816d8814251a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:05 +0000
Subject: [PATCH 66/86] fix: null in the data of an event must stay null

---
 crates/grafbase-sdk/src/host_io/event_queue.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/grafbase-sdk/src/host_io/event_queue.rs b/crates/grafbase-sdk/src/host_io/event_queue.rs
index 2267426..8fc7005 100644
--- a/crates/grafbase-sdk/src/host_io/event_queue.rs
+++ b/crates/grafbase-sdk/src/host_io/event_queue.rs
@@ -86,7 +86,7 @@ where
     T: serde::Serialize,
 {
     if !crate::component::can_skip_sending_events() {
-        let data = minicbor_serde::to_vec(data)?;
+        let data = crate::cbor::to_vec(data)?;
         crate::component::queue_event(name, &data);
     }
 
-- 
2.43.0


From 2cfd4fb13d91f1548f264fce193e5a5b0f2110a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:05 +0000
Subject: [PATCH 67/86] fix: JqSelection must find the filters it has already
 compiled

---
 crates/grafbase-sdk/src/jq_selection.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/grafbase-sdk/src/jq_selection.rs b/crates/grafbase-sdk/src/jq_selection.rs
index a0d83b6..7449d4a 100644
--- a/crates/grafbase-sdk/src/jq_selection.rs
+++ b/crates/grafbase-sdk/src/jq_selection.rs
@@ -50,6 +50,8 @@ pub struct JqSelection {
     // ┬┴┬┴┤ ͡°)
     // ┬┴┬┴┤
     selection_cache: HashTable<(String, usize)>,
+    // Every instance has its own random state, so it must be the same for all selections.
+    hasher: DefaultHashBuilder,
     filters: Vec<Filter<Native<Val>>>,
 }
 
@@ -59,6 +61,7 @@ impl Default for JqSelection {
             arena: Arena::default(),
             inputs: RcIter::new(core::iter::empty()),
             selection_cache: HashTable::new(),
+            hasher: DefaultHashBuilder::default(),
             filters: Vec::new(),
         }
     }
@@ -82,7 +85,7 @@ impl JqSelection {
         selection: &str,
         data: serde_json::Value,
     ) -> Result<impl Iterator<Item = Result<serde_json::Value, SdkError>> + '_, SdkError> {
-        let hasher = DefaultHashBuilder::default();
+        let hasher = &self.hasher;
         let hash = hasher.hash_one(selection);
         let hasher = |val: &(String, usize)| hasher.hash_one(&val.0);
 
-- 
2.43.0


From 8a102e83148f27b14ad76cd5046669374ea17a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:30 +0000
Subject: [PATCH 68/86] fix: keep the context and the prepared data as long as
 the subscription that borrows them

---
 crates/grafbase-sdk/src/component/state.rs | 23 ++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/crates/grafbase-sdk/src/component/state.rs b/crates/grafbase-sdk/src/component/state.rs
index fa7845e..c9e2da7 100644
--- a/crates/grafbase-sdk/src/component/state.rs
+++ b/crates/grafbase-sdk/src/component/state.rs
@@ -21,12 +21,18 @@ static mut EVENT_QUEUE: Option<wit::EventQueue> = None;
 static mut CAN_SKIP_SENDING_EVENTS: bool = false;
 
 enum SubscriptionState {
+    // The callback and the subscription may keep references to the context and the prepared data, so they must be
+    // dropped first.
     Uninitialized {
+        callback: SubscriptionCallback<'static>,
         ctx: Box<crate::types::AuthorizedOperationContext>,
         prepared: Vec<u8>,
-        callback: SubscriptionCallback<'static>,
     },
-    Initialized(Box<dyn Subscription>),
+    Initialized {
+        subscription: Box<dyn Subscription>,
+        _ctx: Box<crate::types::AuthorizedOperationContext>,
+        _prepared: Vec<u8>,
+    },
 }
 
 /// Initializes the resolver extension with the provided directives using the closure
@@ -147,7 +153,7 @@ pub(super) fn subscription() -> Result<&'static mut dyn Subscription, Error> {
     unsafe {
         let state = std::mem::take(&mut SUBSCRIPTION);
         match state {
-            Some(SubscriptionState::Initialized(_)) => {
+            Some(SubscriptionState::Initialized { .. }) => {
                 SUBSCRIPTION = state; // Restore the state
             }
             Some(SubscriptionState::Uninitialized {
@@ -155,10 +161,11 @@ pub(super) fn subscription() -> Result<&'static mut dyn Subscription, Error> {
                 prepared,
                 callback,
             }) => {
-                SUBSCRIPTION = Some(SubscriptionState::Initialized(callback()?));
-                // Must be dropped *after* callback as callback may keep a reference to it
-                drop(prepared);
-                drop(ctx);
+                SUBSCRIPTION = Some(SubscriptionState::Initialized {
+                    subscription: callback()?,
+                    _ctx: ctx,
+                    _prepared: prepared,
+                });
             }
             None => {
                 return Err(Error {
@@ -167,7 +174,7 @@ pub(super) fn subscription() -> Result<&'static mut dyn Subscription, Error> {
                 });
             }
         }
-        let Some(SubscriptionState::Initialized(subscription)) = SUBSCRIPTION.as_mut() else {
+        let Some(SubscriptionState::Initialized { subscription, .. }) = SUBSCRIPTION.as_mut() else {
             unreachable!();
         };
         Ok(subscription.deref_mut())
-- 
2.43.0


From 732f4ede67227dd185ab6061e17bad2cf778adf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:34 +0000
Subject: [PATCH 69/86] fix: QueryBuilder::bind must not shift the elements of
 an array twice

---
 crates/grafbase-sdk/src/host_io/postgres/query.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/crates/grafbase-sdk/src/host_io/postgres/query.rs b/crates/grafbase-sdk/src/host_io/postgres/query.rs
index 3d66974..70f8b69 100644
--- a/crates/grafbase-sdk/src/host_io/postgres/query.rs
+++ b/crates/grafbase-sdk/src/host_io/postgres/query.rs
@@ -222,8 +222,7 @@ impl QueryBuilder {
     /// # Returns
     /// The query builder for method chaining
     pub fn bind(&mut self, value: impl DatabaseType) {
-        let value = value.into_bound_value(self.value_tree.len() as u64);
-        self.bind_value(value);
+        self.bind_value(value.into_bound_value(0));
     }
 
     /// Binds a pre-constructed `DatabaseValue` to the query as a parameter.
-- 
2.43.0


From 9893a915112245c9397e37efdaa61b27a119c845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:34 +0000
Subject: [PATCH 70/86] fix: the columns of a row must go on after one that
 cannot be read

---
 crates/grafbase-sdk/src/host_io/postgres/query.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/crates/grafbase-sdk/src/host_io/postgres/query.rs b/crates/grafbase-sdk/src/host_io/postgres/query.rs
index 70f8b69..d3dc1ab 100644
--- a/crates/grafbase-sdk/src/host_io/postgres/query.rs
+++ b/crates/grafbase-sdk/src/host_io/postgres/query.rs
@@ -89,14 +89,11 @@ impl Iterator for ColumnIterator {
 
     fn next(&mut self) -> Option<Self::Item> {
         if self.position < self.length {
-            let value = match self.row.as_bytes(self.position as u64) {
-                Ok(value) => value,
-                Err(err) => return Some(Err(SdkError::from(err))),
-            };
+            let value = self.row.as_bytes(self.position as u64);
 
             self.position += 1;
 
-            Some(Ok(RowValue { value }))
+            Some(value.map(|value| RowValue { value }).map_err(SdkError::from))
         } else {
             None
         }
-- 
2.43.0


From 64c438314212f79ad1323a5f694c2549aa9ed2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:34 +0000
Subject: [PATCH 71/86] fix: DatabaseValueIterator must yield the elements of
 an array in their order

---
 crates/grafbase-sdk/src/host_io/postgres/types.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/grafbase-sdk/src/host_io/postgres/types.rs b/crates/grafbase-sdk/src/host_io/postgres/types.rs
index 0919da7..4890eb3 100644
--- a/crates/grafbase-sdk/src/host_io/postgres/types.rs
+++ b/crates/grafbase-sdk/src/host_io/postgres/types.rs
@@ -89,7 +89,7 @@ impl DatabaseValue {
         DatabaseValueIterator {
             value: Some(self.value),
             r#type,
-            tree: self.array_values,
+            tree: self.array_values.map(Vec::into_iter),
         }
     }
 
@@ -376,7 +376,7 @@ fn hex_to_bytes(s: &str) -> Result<Vec<u8>, SdkError> {
 pub struct DatabaseValueIterator {
     value: Option<wit::PgBoundValue>,
     r#type: wit::PgType,
-    tree: Option<wit::PgValueTree>,
+    tree: Option<std::vec::IntoIter<wit::PgValue>>,
 }
 
 impl Iterator for DatabaseValueIterator {
@@ -384,7 +384,7 @@ impl Iterator for DatabaseValueIterator {
 
     fn next(&mut self) -> Option<Self::Item> {
         let value = match (self.value.take(), self.tree.as_mut()) {
-            (_, Some(array)) => array.pop(),
+            (_, Some(array)) => array.next(),
             (Some(value), _) => Some(value.value),
             _ => None,
         };
-- 
2.43.0


From 4a8f8726be2b7d345a96ccaef7546cec978e3bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:34 +0000
Subject: [PATCH 72/86] fix: a hex string with other characters than hex digits
 must be an error

---
 crates/grafbase-sdk/src/host_io/postgres/types.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/grafbase-sdk/src/host_io/postgres/types.rs b/crates/grafbase-sdk/src/host_io/postgres/types.rs
index 4890eb3..2255347 100644
--- a/crates/grafbase-sdk/src/host_io/postgres/types.rs
+++ b/crates/grafbase-sdk/src/host_io/postgres/types.rs
@@ -354,7 +354,10 @@ fn hex_to_bytes(s: &str) -> Result<Vec<u8>, SdkError> {
     let mut bytes = Vec::with_capacity(hex_part.len() / 2);
 
     for i in (0..hex_part.len()).step_by(2) {
-        let hex_pair = &hex_part[i..i + 2];
+        let hex_pair = hex_part
+            .get(i..i + 2)
+            .filter(|pair| pair.bytes().all(|byte| byte.is_ascii_hexdigit()))
+            .ok_or_else(|| SdkError::from(format!("Invalid hex digits in '{s}'")))?;
 
         // 5. Parse the hex pair into a u8
         match u8::from_str_radix(hex_pair, 16) {
-- 
2.43.0


From 0a52ae3d2643ae01fc1a73096b549b42e692bc57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:34 +0000
Subject: [PATCH 73/86] fix: a SystemTime before 1970 can be a database value

---
 crates/grafbase-sdk/src/host_io/postgres/types.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/grafbase-sdk/src/host_io/postgres/types.rs b/crates/grafbase-sdk/src/host_io/postgres/types.rs
index 2255347..388069c 100644
--- a/crates/grafbase-sdk/src/host_io/postgres/types.rs
+++ b/crates/grafbase-sdk/src/host_io/postgres/types.rs
@@ -595,7 +595,10 @@ impl DatabaseType for bool {
 
 impl DatabaseType for SystemTime {
     fn into_value(self, _: &mut u64) -> (wit::PgValue, Option<wit::PgValueTree>) {
-        let ts = self.duration_since(SystemTime::UNIX_EPOCH).unwrap().as_micros() as i64;
+        let ts = match self.duration_since(SystemTime::UNIX_EPOCH) {
+            Ok(since) => since.as_micros() as i64,
+            Err(before) => -(before.duration().as_micros() as i64),
+        };
 
         (wit::PgValue::Int64(ts), None)
     }
-- 
2.43.0


From d789c8b9df912228071b40c4c0233caa3d1fd64d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:34 +0000
Subject: [PATCH 74/86] fix: dropping a transaction must not panic when the
 rollback fails

---
 crates/grafbase-sdk/src/host_io/postgres/connection.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/grafbase-sdk/src/host_io/postgres/connection.rs b/crates/grafbase-sdk/src/host_io/postgres/connection.rs
index 445b1c1..114441f 100644
--- a/crates/grafbase-sdk/src/host_io/postgres/connection.rs
+++ b/crates/grafbase-sdk/src/host_io/postgres/connection.rs
@@ -72,7 +72,8 @@ impl Transaction {
 impl Drop for Transaction {
     fn drop(&mut self) {
         if !self.committed_or_rolled_back {
-            self.inner.rollback().unwrap()
+            // Without a connection there is nothing left to roll back.
+            let _ = self.inner.rollback();
         }
     }
 }
-- 
2.43.0


From 65764d07154b2124b1b8d9783e6139e519e47e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:34 +0000
Subject: [PATCH 75/86] fix: integers for float columns are valid and numbers
 out of the range of the column are not

---
 .../src/host_io/postgres/types.rs             | 81 ++++++++++---------
 1 file changed, 41 insertions(+), 40 deletions(-)

diff --git a/crates/grafbase-sdk/src/host_io/postgres/types.rs b/crates/grafbase-sdk/src/host_io/postgres/types.rs
index 388069c..ee0335d 100644
--- a/crates/grafbase-sdk/src/host_io/postgres/types.rs
+++ b/crates/grafbase-sdk/src/host_io/postgres/types.rs
@@ -245,28 +245,22 @@ impl DatabaseValue {
             },
             serde_json::Value::Bool(b) => b.into_bound_value(0),
             serde_json::Value::Number(number) => {
-                if let Some(i) = number.as_i64() {
-                    match column_type {
-                        PgType::Int16 => return Ok((i as i16).into_bound_value(0)),
-                        PgType::Int32 => return Ok((i as i32).into_bound_value(0)),
-                        PgType::Int64 => return Ok(i.into_bound_value(0)),
-                        _ => {
-                            return Err(SdkError::from("Unsupported type for an int column"));
-                        }
-                    }
-                }
+                let Some(value) = number_to_value(&number, column_type)? else {
+                    return Err(SdkError::from(if number.is_i64() {
+                        "Unsupported type for an int column"
+                    } else {
+                        "Unsupported type for a float column"
+                    }));
+                };
 
-                if let Some(f) = number.as_f64() {
-                    match column_type {
-                        PgType::Float32 => return Ok((f as f32).into_bound_value(0)),
-                        PgType::Float64 => return Ok(f.into_bound_value(0)),
-                        _ => {
-                            return Err(SdkError::from("Unsupported type for a float column"));
-                        }
-                    }
+                DatabaseValue {
+                    value: PgBoundValue {
+                        value,
+                        type_: column_type,
+                        is_array: false,
+                    },
+                    array_values: None,
                 }
-
-                return Err(SdkError::from(format!("Number out of range: {number}")));
             }
             serde_json::Value::String(s) => match column_type {
                 PgType::Bytes => {
@@ -293,26 +287,15 @@ impl DatabaseValue {
                         serde_json::Value::Null => array_values.push(wit::PgValue::Null),
                         serde_json::Value::Bool(b) => array_values.push(wit::PgValue::Boolean(b)),
                         serde_json::Value::Number(number) => {
-                            if let Some(i) = number.as_i64() {
-                                let value = match column_type {
-                                    PgType::Int16 => wit::PgValue::Int16(i as i16),
-                                    PgType::Int32 => wit::PgValue::Int32(i as i32),
-                                    PgType::Int64 => wit::PgValue::Int64(i),
-                                    _ => return Err(SdkError::from("Unsupported type for an integer array column")),
-                                };
-
-                                array_values.push(value);
-                            } else if let Some(f) = number.as_f64() {
-                                let value = match column_type {
-                                    PgType::Float32 => wit::PgValue::Float32(f as f32),
-                                    PgType::Float64 => wit::PgValue::Float64(f),
-                                    _ => return Err(SdkError::from("Unsupported type for a float array column")),
-                                };
-
-                                array_values.push(value);
-                            } else {
-                                return Err(SdkError::from(format!("Number out of range: {number}")));
-                            }
+                            let Some(value) = number_to_value(&number, column_type)? else {
+                                return Err(SdkError::from(if number.is_i64() {
+                                    "Unsupported type for an integer array column"
+                                } else {
+                                    "Unsupported type for a float array column"
+                                }));
+                            };
+
+                            array_values.push(value);
                         }
                         serde_json::Value::String(s) => match column_type {
                             wit::PgType::Bytes => array_values.push(wit::PgValue::Bytes(hex_to_bytes(&s)?)),
@@ -340,6 +323,24 @@ impl DatabaseValue {
     }
 }
 
+/// The number as a value of the column, `None` if the type of the column doesn't support it.
+fn number_to_value(number: &serde_json::Number, column_type: PgType) -> Result<Option<PgValue>, SdkError> {
+    let out_of_range = || SdkError::from(format!("Number out of range: {number}"));
+
+    let value = match (column_type, number.as_i64(), number.as_f64()) {
+        (PgType::Int16, Some(i), _) => PgValue::Int16(i.try_into().map_err(|_| out_of_range())?),
+        (PgType::Int32, Some(i), _) => PgValue::Int32(i.try_into().map_err(|_| out_of_range())?),
+        (PgType::Int64, Some(i), _) => PgValue::Int64(i),
+        (PgType::Float32, _, Some(f)) if (f as f32).is_infinite() => return Err(out_of_range()),
+        (PgType::Float32, _, Some(f)) => PgValue::Float32(f as f32),
+        (PgType::Float64, _, Some(f)) => PgValue::Float64(f),
+        (_, None, None) => return Err(out_of_range()),
+        _ => return Ok(None),
+    };
+
+    Ok(Some(value))
+}
+
 fn hex_to_bytes(s: &str) -> Result<Vec<u8>, SdkError> {
     if !s.starts_with("\\x") {
         return Err(SdkError::from("Input string must start with '\\x'"));
-- 
2.43.0


From 1643ce8bb6ba7add85b98119b4d921e49fe1602d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:11 +0000
Subject: [PATCH 76/86] fix: "off" and levels in upper case must not override
 the log level of extensions

---
 crates/grafbase-sdk/src/component/state.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/grafbase-sdk/src/component/state.rs b/crates/grafbase-sdk/src/component/state.rs
index c9e2da7..930e62f 100644
--- a/crates/grafbase-sdk/src/component/state.rs
+++ b/crates/grafbase-sdk/src/component/state.rs
@@ -196,7 +196,7 @@ pub(super) fn drop_subscription() {
 ///
 /// - Extracts log levels from `extension=level` directives
 /// - When extension directives are present, filters out standalone log level tokens
-///   (`trace`, `debug`, `info`, `warn`, `error`)
+///   (`trace`, `debug`, `info`, `warn`, `error`, `off`, in any case)
 /// - When no extension directives are present, preserves all parts unchanged
 ///
 /// # Arguments
@@ -230,9 +230,9 @@ fn parse_host_level(host_log_level: String) -> String {
 
             // If extension directives are present, filter out standalone log levels
             if has_extension_directives {
-                match part {
-                    "trace" | "debug" | "info" | "warn" | "error" => None,
-                    _ => Some(Cow::Borrowed(part)),
+                match part.parse::<log::LevelFilter>() {
+                    Ok(_) => None,
+                    Err(_) => Some(Cow::Borrowed(part)),
                 }
             } else {
                 // Keep all other parts unchanged when no extension directives
-- 
2.43.0


From 89271a1a2481afb270cbaf319906f6be301a9c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:07 +0000
Subject: [PATCH 77/86] hook: messaging clients of the SDK are stand-ins under
 vmc_hooks

---
 crates/grafbase-sdk/src/wit/mod.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/crates/grafbase-sdk/src/wit/mod.rs b/crates/grafbase-sdk/src/wit/mod.rs
index 67adba9..0daef13 100644
--- a/crates/grafbase-sdk/src/wit/mod.rs
+++ b/crates/grafbase-sdk/src/wit/mod.rs
@@ -33,6 +33,9 @@ wit_bindgen::generate!({
         "grafbase:sdk/logger": host::logger,
         "grafbase:sdk/http-client": host::http_client,
         "grafbase:sdk/postgres": host::postgres,
+        "grafbase:sdk/grpc": host::grpc,
+        "grafbase:sdk/kafka-client": host::kafka_client,
+        "grafbase:sdk/nats-client": host::nats_client,
     },
 });
 
@@ -58,6 +61,7 @@ pub(crate) use grafbase::sdk::event_types::{
     CacheStatus, Event, ExecutedHttpRequest, ExecutedOperation, ExecutedSubgraphRequest, ExtensionEvent, FieldError,
     GraphqlResponseStatus, OperationType, RequestError, SubgraphRequestExecutionKind, SubgraphResponse,
 };
+#[cfg(not(vmc_hooks))]
 pub(crate) use grafbase::sdk::grpc::*;
 #[cfg(not(vmc_hooks))]
 pub(crate) use grafbase::sdk::headers::HeaderError;
@@ -65,9 +69,11 @@ pub(crate) use grafbase::sdk::hooks_types::{HttpRequestParts, OnRequestOutput, O
 #[cfg(not(vmc_hooks))]
 pub(crate) use grafbase::sdk::http_client::HttpClient;
 pub(crate) use grafbase::sdk::http_types::*;
+#[cfg(not(vmc_hooks))]
 pub(crate) use grafbase::sdk::kafka_client::*;
 #[cfg(not(vmc_hooks))]
 pub(crate) use grafbase::sdk::logger::*;
+#[cfg(not(vmc_hooks))]
 pub use grafbase::sdk::nats_client::*;
 #[cfg(not(vmc_hooks))]
 pub use grafbase::sdk::postgres::*;
@@ -75,4 +81,7 @@ pub(crate) use grafbase::sdk::schema::*;
 pub(crate) use grafbase::sdk::token::Token;
 pub(crate) use resolver_types::{ArgumentsId, Data, Field, FieldId, Response, SelectionSet, SubscriptionItem};
 #[cfg(vmc_hooks)]
-pub use host::{cache::*, context::*, event_queue::EventQueue, headers::HeaderError, http_client::HttpClient, logger::*, postgres::*};
+pub use host::{
+    cache::*, context::*, event_queue::EventQueue, grpc::*, headers::HeaderError, http_client::HttpClient,
+    kafka_client::*, logger::*, nats_client::*, postgres::*,
+};
-- 
2.43.0


From 7edd441d9a0624ceab7283f3fbe073a3446072ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:11 +0000
Subject: [PATCH 78/86] fix: a NATS request whose payload is no JSON must be an
 error instead of a panic

---
 crates/grafbase-sdk/src/host_io/nats.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/grafbase-sdk/src/host_io/nats.rs b/crates/grafbase-sdk/src/host_io/nats.rs
index 04dbd1c..d831aa7 100644
--- a/crates/grafbase-sdk/src/host_io/nats.rs
+++ b/crates/grafbase-sdk/src/host_io/nats.rs
@@ -56,7 +56,7 @@ impl NatsClient {
         S: serde::Serialize,
         T: for<'de> serde::Deserialize<'de>,
     {
-        let body = serde_json::to_vec(payload).unwrap();
+        let body = serde_json::to_vec(payload)?;
         let response = self.request_bytes(subject, &body, timeout)?;
 
         Ok(serde_json::from_slice(&response)?)
-- 
2.43.0


From cc37b02bdc893df858a99e3f637fcc530d562266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:34 +0000
Subject: [PATCH 79/86] fix: a Kafka consumer's long max wait time must not
 become negative

---
 crates/grafbase-sdk/src/host_io/kafka/consumer.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/grafbase-sdk/src/host_io/kafka/consumer.rs b/crates/grafbase-sdk/src/host_io/kafka/consumer.rs
index 697ef4f..3c83d8d 100644
--- a/crates/grafbase-sdk/src/host_io/kafka/consumer.rs
+++ b/crates/grafbase-sdk/src/host_io/kafka/consumer.rs
@@ -229,7 +229,9 @@ impl From<KafkaConsumerConfig> for wit::KafkaConsumerConfig {
         Self {
             min_batch_size: value.min_batch_size,
             max_batch_size: value.max_batch_size,
-            max_wait_ms: value.max_wait_time.map(|ms| ms.as_millis() as i32),
+            max_wait_ms: value
+                .max_wait_time
+                .map(|time| i32::try_from(time.as_millis()).unwrap_or(i32::MAX)),
             client_config: value.client_config,
             start_offset: value.start_offset,
         }
-- 
2.43.0


From cb2fc34022445c88020e9bde4730c1009109a72e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:47 +0000
Subject: [PATCH 80/86] fix: composition: list each argument of a composed
 directive's definition once, whatever the order of the subgraphs

---
 .../src/compose/directive_definitions.rs      | 107 ++++++++++--------
 1 file changed, 61 insertions(+), 46 deletions(-)

diff --git a/crates/graphql-composition/src/compose/directive_definitions.rs b/crates/graphql-composition/src/compose/directive_definitions.rs
index 5c1af1e..bd22924 100644
--- a/crates/graphql-composition/src/compose/directive_definitions.rs
+++ b/crates/graphql-composition/src/compose/directive_definitions.rs
@@ -58,59 +58,74 @@ pub(super) fn compose_directive_definitions(ctx: &mut Context<'_>) {
         let repeatable = first_definition.repeatable;
         let mut arguments = Vec::<ir::InputValueDefinitionIr>::with_capacity(first_definition.arguments.len());
         for (ix, definition) in chunk.iter().copied().enumerate() {
-            for argument in &definition.arguments {
-                if arguments
+            let has_incompatible_argument = definition.arguments.iter().any(|argument| {
+                arguments
                     .iter()
                     .find(|arg| ctx[arg.name] == ctx[argument.name])
                     .map(|arg| arg.r#type != argument.r#type || arg.default != argument.default_value)
                     .unwrap_or(argument.r#type.wrapping.is_non_null() && ix != 0)
-                {
-                    let mut diagnostic = format!(
-                        "Directive `{}` is defined with incompatible arguments:\n",
-                        ctx.subgraphs[first_definition.name].as_ref(),
-                    );
-
-                    for def in [first_definition, definition] {
-                        writeln!(
-                            diagnostic,
-                            "- ({}) in {}",
-                            def.arguments
-                                .iter()
-                                .cloned()
-                                .map(|arg| arg.display(ctx.subgraphs).to_string())
-                                .join(", "),
-                            ctx.subgraphs[ctx.subgraphs.at(def.subgraph_id).name].as_ref(),
-                        )
-                        .unwrap();
-                    }
-
-                    ctx.diagnostics.push_fatal(diagnostic);
-                    continue 'directives;
-                } else {
-                    let input_value_definition = ir::InputValueDefinitionIr {
-                        name: ctx.insert_string(argument.name),
-                        r#type: argument.r#type,
-                        // Directive argument definitions cannot have directives applied on them.
-                        directives: argument
-                            .directives
+            });
+            let is_missing_required_argument = arguments.iter().any(|arg| {
+                arg.r#type.wrapping.is_non_null()
+                    && !definition
+                        .arguments
+                        .iter()
+                        .any(|argument| ctx[arg.name] == ctx[argument.name])
+            });
+
+            if has_incompatible_argument || is_missing_required_argument {
+                let mut diagnostic = format!(
+                    "Directive `{}` is defined with incompatible arguments:\n",
+                    ctx.subgraphs[first_definition.name].as_ref(),
+                );
+
+                for def in [first_definition, definition] {
+                    writeln!(
+                        diagnostic,
+                        "- ({}) in {}",
+                        def.arguments
                             .iter()
-                            .map(|directive| ir::Directive::Other {
-                                provenance: ir::DirectiveProvenance::Builtin,
-                                name: ctx.insert_string(directive.name),
-                                arguments: directive
-                                    .arguments
-                                    .iter()
-                                    .map(|(name, value)| (ctx.insert_string(*name), value.clone()))
-                                    .collect(),
-                            })
-                            .collect(),
-                        description: None,
-                        default: argument.default_value.clone(),
-                    };
-
-                    arguments.push(input_value_definition);
+                            .cloned()
+                            .map(|arg| arg.display(ctx.subgraphs).to_string())
+                            .join(", "),
+                        ctx.subgraphs[ctx.subgraphs.at(def.subgraph_id).name].as_ref(),
+                    )
+                    .unwrap();
                 }
+
+                ctx.diagnostics.push_fatal(diagnostic);
+                continue 'directives;
             }
+
+            for argument in &definition.arguments {
+                if arguments.iter().any(|arg| ctx[arg.name] == ctx[argument.name]) {
+                    continue;
+                }
+
+                let input_value_definition = ir::InputValueDefinitionIr {
+                    name: ctx.insert_string(argument.name),
+                    r#type: argument.r#type,
+                    // Directive argument definitions cannot have directives applied on them.
+                    directives: argument
+                        .directives
+                        .iter()
+                        .map(|directive| ir::Directive::Other {
+                            provenance: ir::DirectiveProvenance::Builtin,
+                            name: ctx.insert_string(directive.name),
+                            arguments: directive
+                                .arguments
+                                .iter()
+                                .map(|(name, value)| (ctx.insert_string(*name), value.clone()))
+                                .collect(),
+                        })
+                        .collect(),
+                    description: None,
+                    default: argument.default_value.clone(),
+                };
+
+                arguments.push(input_value_definition);
+            }
+
             if definition.arguments != first_definition.arguments {
                 let mut diagnostic = format!(
                     "Directive `{}` is defined with different arguments:\n",
-- 
2.43.0


From c0e8c4b743d48392a67ecf7bb6040971449ad348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:47 +0000
Subject: [PATCH 81/86] fix: composition: drop repeated composed directives
 even when they are not adjacent

---
 crates/graphql-composition/src/compose/directives.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/graphql-composition/src/compose/directives.rs b/crates/graphql-composition/src/compose/directives.rs
index bc193ad..b47cae9 100644
--- a/crates/graphql-composition/src/compose/directives.rs
+++ b/crates/graphql-composition/src/compose/directives.rs
@@ -185,10 +185,10 @@ pub(super) fn collect_composed_directives(
         out.push(directive);
     }
 
-    extra_directives.dedup();
-
     for directive in extra_directives {
-        out.push(directive);
+        if !out.contains(&directive) {
+            out.push(directive);
+        }
     }
 
     out
-- 
2.43.0


From 5e76c7efd64e38c002266d95fb50c8e0bab73926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:47 +0000
Subject: [PATCH 82/86] fix: composition: refuse subgraph names that are not
 ASCII, which cannot be rendered as GraphQL names

---
 crates/graphql-composition/src/validate/subgraph_names.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/graphql-composition/src/validate/subgraph_names.rs b/crates/graphql-composition/src/validate/subgraph_names.rs
index e5ddf9a..f59bce6 100644
--- a/crates/graphql-composition/src/validate/subgraph_names.rs
+++ b/crates/graphql-composition/src/validate/subgraph_names.rs
@@ -27,8 +27,8 @@ fn validate_name(name: &str, ctx: &mut ValidateContext<'_>) {
         return;
     };
 
-    let first_char_is_ok = first.is_alphabetic();
-    let other_chars_are_ok = chars.all(|char| char == '-' || char.is_alphanumeric());
+    let first_char_is_ok = first.is_ascii_alphabetic();
+    let other_chars_are_ok = chars.all(|char| char == '-' || char.is_ascii_alphanumeric());
 
     if first_char_is_ok && other_chars_are_ok {
         return;
-- 
2.43.0


From 600b45454f3bfcec281b814f8904d533864eaa3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:47 +0000
Subject: [PATCH 83/86] fix: composition: compare extension names as they
 appear in the extension__Link enum

---
 crates/graphql-composition/src/validate/extension_names.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/graphql-composition/src/validate/extension_names.rs b/crates/graphql-composition/src/validate/extension_names.rs
index a08a68e..515b948 100644
--- a/crates/graphql-composition/src/validate/extension_names.rs
+++ b/crates/graphql-composition/src/validate/extension_names.rs
@@ -24,7 +24,10 @@ pub(crate) fn validate_extension_names(ctx: &mut ValidateContext<'_>) {
             None => link_url,
         };
 
-        let Some(existing) = seen.insert(name.to_ascii_lowercase(), normalized_url) else {
+        // Two names are the same if they become the same value of the `extension__Link` enum.
+        let normalized_name = name.to_ascii_lowercase().replace(['-', '.'], "_");
+
+        let Some(existing) = seen.insert(normalized_name, normalized_url) else {
             continue;
         };
 
-- 
2.43.0


From 4ae8274ee650a0e97680d073220b0b5ed8c852f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:47 +0000
Subject: [PATCH 84/86] fix: composition: keep fields internal when a
 supergraph is read from its SDL

---
 .../src/federated_graph/from_sdl/directive.rs         | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/crates/graphql-composition/src/federated_graph/from_sdl/directive.rs b/crates/graphql-composition/src/federated_graph/from_sdl/directive.rs
index 21f27e7..ae45639 100644
--- a/crates/graphql-composition/src/federated_graph/from_sdl/directive.rs
+++ b/crates/graphql-composition/src/federated_graph/from_sdl/directive.rs
@@ -75,6 +75,7 @@ fn parse_common_directives<'a>(
             .deserialize::<CostDirective>()
             .map_err(|err| DomainError(format!("Invalid cost directive: {err}")))
             .map(|dir| Some(Directive::Cost { weight: dir.weight })),
+        "composite__internal" => parse_composite_internal(directive, state).map(Some),
         EXTENSION_DIRECTIVE_DIRECTIVE if state.extensions_loaded => {
             parse_extension_directive(directive, state).map(Some)
         }
@@ -146,6 +147,16 @@ fn parse_join_union_member(directive: ast::Directive<'_>, state: &mut State<'_>)
     }))
 }
 
+fn parse_composite_internal(directive: ast::Directive<'_>, state: &State<'_>) -> Result<Directive, DomainError> {
+    let graph = directive
+        .get_argument("graph")
+        .and_then(|arg| arg.as_enum_value())
+        .and_then(|name| state.graph_by_enum_str.get(name).copied())
+        .ok_or_else(|| DomainError("Missing or invalid 'graph' argument in @composite__internal".to_owned()))?;
+
+    Ok(Directive::CompositeInternal { graph })
+}
+
 fn parse_deprecated<'a>(directive: ast::Directive<'a>, state: &mut State<'a>) -> Directive {
     Directive::Deprecated {
         reason: directive
-- 
2.43.0


From 94df41fda771881ad79f9eca4815fdc556763bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:05 +0000
Subject: [PATCH 85/86] fix: composition: list a composed directive of a linked
 schema once when several subgraphs use it

---
 .../src/compose/directives.rs                 | 29 ++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/crates/graphql-composition/src/compose/directives.rs b/crates/graphql-composition/src/compose/directives.rs
index b47cae9..948df8c 100644
--- a/crates/graphql-composition/src/compose/directives.rs
+++ b/crates/graphql-composition/src/compose/directives.rs
@@ -186,10 +186,37 @@ pub(super) fn collect_composed_directives(
     }
 
     for directive in extra_directives {
-        if !out.contains(&directive) {
+        if !out.iter().any(|other| is_same_directive(other, &directive, ctx)) {
             out.push(directive);
         }
     }
 
     out
 }
+
+/// Composed directives are the same, whichever subgraph they come from, if they are linked from the same schema.
+fn is_same_directive(a: &ir::Directive, b: &ir::Directive, ctx: &ComposeContext<'_>) -> bool {
+    let (
+        ir::Directive::Other {
+            provenance:
+                ir::DirectiveProvenance::ComposeDirective {
+                    linked_schema_id: Some(schema_a),
+                },
+            name: name_a,
+            arguments: arguments_a,
+        },
+        ir::Directive::Other {
+            provenance:
+                ir::DirectiveProvenance::ComposeDirective {
+                    linked_schema_id: Some(schema_b),
+                },
+            name: name_b,
+            arguments: arguments_b,
+        },
+    ) = (a, b)
+    else {
+        return a == b;
+    };
+
+    name_a == name_b && arguments_a == arguments_b && ctx.subgraphs.at(*schema_a).url == ctx.subgraphs.at(*schema_b).url
+}
-- 
2.43.0


From 150bd2de1c425d8ffb31c4ddc20bec549bf67430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:05 +0000
Subject: [PATCH 86/86] fix: composition: read the directives of composite
 schemas from a supergraph's SDL, so that required arguments stay hidden

---
 .../src/federated_graph/from_sdl/directive.rs | 35 ++++++++++++++++---
 1 file changed, 31 insertions(+), 4 deletions(-)

diff --git a/crates/graphql-composition/src/federated_graph/from_sdl/directive.rs b/crates/graphql-composition/src/federated_graph/from_sdl/directive.rs
index ae45639..ae4ce61 100644
--- a/crates/graphql-composition/src/federated_graph/from_sdl/directive.rs
+++ b/crates/graphql-composition/src/federated_graph/from_sdl/directive.rs
@@ -75,7 +75,9 @@ fn parse_common_directives<'a>(
             .deserialize::<CostDirective>()
             .map_err(|err| DomainError(format!("Invalid cost directive: {err}")))
             .map(|dir| Some(Directive::Cost { weight: dir.weight })),
-        "composite__internal" => parse_composite_internal(directive, state).map(Some),
+        "composite__lookup" | "composite__derive" | "composite__internal" | "composite__require" | "composite__is" => {
+            parse_composite_directive(directive, state).map(Some)
+        }
         EXTENSION_DIRECTIVE_DIRECTIVE if state.extensions_loaded => {
             parse_extension_directive(directive, state).map(Some)
         }
@@ -147,14 +149,39 @@ fn parse_join_union_member(directive: ast::Directive<'_>, state: &mut State<'_>)
     }))
 }
 
-fn parse_composite_internal(directive: ast::Directive<'_>, state: &State<'_>) -> Result<Directive, DomainError> {
+fn parse_composite_directive<'a>(
+    directive: ast::Directive<'a>,
+    state: &mut State<'a>,
+) -> Result<Directive, DomainError> {
+    let invalid_argument = |argument: &str| {
+        DomainError(format!(
+            "Missing or invalid '{argument}' argument in @{}",
+            directive.name()
+        ))
+    };
+
     let graph = directive
         .get_argument("graph")
         .and_then(|arg| arg.as_enum_value())
         .and_then(|name| state.graph_by_enum_str.get(name).copied())
-        .ok_or_else(|| DomainError("Missing or invalid 'graph' argument in @composite__internal".to_owned()))?;
+        .ok_or_else(|| invalid_argument("graph"))?;
+
+    let mut field = || {
+        directive
+            .get_argument("field")
+            .and_then(|arg| arg.as_str())
+            .map(|field| state.insert_string(field))
+            .ok_or_else(|| invalid_argument("field"))
+    };
 
-    Ok(Directive::CompositeInternal { graph })
+    Ok(match directive.name() {
+        "composite__lookup" => Directive::CompositeLookup { graph },
+        "composite__derive" => Directive::CompositeDerive { graph },
+        "composite__internal" => Directive::CompositeInternal { graph },
+        "composite__require" => Directive::CompositeRequire { graph, field: field()? },
+        "composite__is" => Directive::CompositeIs { graph, field: field()? },
+        _ => parse_other(directive, state),
+    })
 }
 
 fn parse_deprecated<'a>(directive: ast::Directive<'a>, state: &mut State<'a>) -> Directive {
-- 
2.43.0

