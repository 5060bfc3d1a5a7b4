From dcd08d83762cc7a457d0d2c7dadbfea7f5180dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:58 +0000
Subject: [PATCH 01/33] fix: messages of an imported IDL protocol win over
 those it imports itself

---
 src/compiler.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/compiler.rs b/src/compiler.rs
index 3148bf3..4aa7ca8 100644
--- a/src/compiler.rs
+++ b/src/compiler.rs
@@ -821,11 +821,6 @@ fn resolve_single_import(
                     .push(miette::Report::new(w).wrap_err(import_file_name.to_string()));
             }
 
-            // If the imported IDL is a protocol, merge its messages.
-            if let IdlFile::Protocol(imported_protocol) = &imported_idl {
-                ctx.messages.extend(imported_protocol.messages.clone());
-            }
-
             // Recursively process declaration items from the imported file.
             // IDL imports use their own source text for span tracking, so
             // `ctx.json_import_spans` is passed through to capture any nested
@@ -833,6 +828,13 @@ fn resolve_single_import(
             process_decl_items(&nested_decl_items, ctx, &import_dir).with_context(|| {
                 format!("resolve nested imports from `{}`", resolved_path.display())
             })?;
+
+            // If the imported IDL is a protocol, merge its messages. This
+            // happens after its own imports were processed, so that (as for
+            // the main file) its messages win over those it imports.
+            if let IdlFile::Protocol(imported_protocol) = imported_idl {
+                ctx.messages.extend(imported_protocol.messages);
+            }
         }
     }
 
-- 
2.43.0


From 915b1f051957c5f4cbb910bfb7ae365d751ede77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:40 +0000
Subject: [PATCH 02/33] fix: keep imported types without a namespace in the
 null namespace

---
 src/model/json.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/model/json.rs b/src/model/json.rs
index f715cf3..c7cc1be 100644
--- a/src/model/json.rs
+++ b/src/model/json.rs
@@ -55,7 +55,10 @@ pub fn protocol_to_json(protocol: &Protocol) -> Value {
     // Build a lookup table from all named types in the protocol's type list.
     // This includes nested types inside records/fields that were registered
     // in the schema registry.
-    let lookup = build_lookup(&protocol.types, protocol.namespace.as_deref());
+    // Types declared in the protocol carry its namespace explicitly; a type
+    // without one was imported from a file without a namespace, and its full
+    // name is its simple name.
+    let lookup = build_lookup(&protocol.types, None);
 
     let mut known_names = HashSet::new();
     let mut obj = Map::new();
@@ -220,6 +223,11 @@ fn named_type_preamble(
     {
         obj.insert("namespace".to_string(), Value::String(ns.to_string()));
     }
+    // A type without a namespace would inherit the enclosing one when the JSON
+    // is read back, so it has to say that it is in the null namespace.
+    if namespace.is_none() && enclosing_namespace.is_some_and(|ns| !ns.is_empty()) {
+        obj.insert("namespace".to_string(), Value::String(String::new()));
+    }
     if let Some(doc) = doc {
         obj.insert("doc".to_string(), Value::String(doc.to_string()));
     }
@@ -304,7 +312,7 @@ pub fn schema_to_json(
             };
             let fields_json: Vec<Value> = fields
                 .iter()
-                .map(|f| field_to_json(f, known_names, ns.or(enclosing_namespace), lookup))
+                .map(|f| field_to_json(f, known_names, ns, lookup))
                 .collect();
             obj.insert("fields".to_string(), Value::Array(fields_json));
             finish_named_type(&mut obj, properties, aliases, ns);
-- 
2.43.0


From e871adb2d12a92497363e57844752679e791a55b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:23 +0000
Subject: [PATCH 03/33] fix: measure edit distances in characters, not bytes

---
 src/compiler.rs | 11 ++++++++---
 src/suggest.rs  |  8 +++++---
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/compiler.rs b/src/compiler.rs
index 4aa7ca8..ec32119 100644
--- a/src/compiler.rs
+++ b/src/compiler.rs
@@ -883,6 +883,11 @@ fn wrap_import_error(
 use crate::model::schema::PRIMITIVE_TYPE_NAMES;
 use crate::suggest::{levenshtein, max_edit_distance};
 
+/// The length of the shorter of two names, in characters.
+fn shorter_len(a: &str, b: &str) -> usize {
+    a.chars().count().min(b.chars().count())
+}
+
 /// Check whether an unresolved simple name is actually a keyword that was used
 /// in the wrong context. Returns a targeted help message when it matches, or
 /// `None` for genuinely unknown names that should fall through to edit-distance
@@ -939,7 +944,7 @@ fn suggest_similar_name(unresolved: &str, registry: &SchemaRegistry) -> Option<S
     // Check against Avro primitive type names.
     for &prim in PRIMITIVE_TYPE_NAMES {
         let dist = levenshtein(simple, prim);
-        let threshold = max_edit_distance(simple.len().min(prim.len()));
+        let threshold = max_edit_distance(shorter_len(simple, prim));
         if dist <= threshold && best.as_ref().is_none_or(|(_, d, _)| dist < *d) {
             best = Some((prim.to_string(), dist, true));
         }
@@ -951,7 +956,7 @@ fn suggest_similar_name(unresolved: &str, registry: &SchemaRegistry) -> Option<S
     for registered_full in registry.names() {
         // Compare unresolved full name against registered full name.
         let dist_full = levenshtein(unresolved, registered_full);
-        let threshold_full = max_edit_distance(unresolved.len().min(registered_full.len()));
+        let threshold_full = max_edit_distance(shorter_len(unresolved, registered_full));
         if dist_full <= threshold_full && best.as_ref().is_none_or(|(_, d, _)| dist_full < *d) {
             best = Some((registered_full.to_string(), dist_full, false));
         }
@@ -963,7 +968,7 @@ fn suggest_similar_name(unresolved: &str, registry: &SchemaRegistry) -> Option<S
             .next()
             .expect("rsplit always yields at least one element");
         let dist_simple = levenshtein(simple, registered_simple);
-        let threshold_simple = max_edit_distance(simple.len().min(registered_simple.len()));
+        let threshold_simple = max_edit_distance(shorter_len(simple, registered_simple));
         if dist_simple <= threshold_simple {
             // Suggest the full registered name so the user gets the right
             // fully-qualified form.
diff --git a/src/suggest.rs b/src/suggest.rs
index 5c3ac83..f8ee853 100644
--- a/src/suggest.rs
+++ b/src/suggest.rs
@@ -11,8 +11,9 @@
 /// (O(min(m, n)) space). This is sufficient for identifiers and type names,
 /// which are short.
 pub(crate) fn levenshtein(a: &str, b: &str) -> usize {
-    let a_len = a.len();
-    let b_len = b.len();
+    // Distances count characters, so the rows must too (not bytes).
+    let a_len = a.chars().count();
+    let b_len = b.chars().count();
     if a_len == 0 {
         return b_len;
     }
@@ -41,7 +42,8 @@ pub(crate) fn levenshtein(a: &str, b: &str) -> usize {
 /// Maximum edit distance for a suggestion to be considered "close enough."
 ///
 /// For short names (length <= 4), we require distance <= 1 to avoid noisy
-/// suggestions. For longer names, we allow distance <= 2.
+/// suggestions. For longer names, we allow distance <= 2. The length is in
+/// characters, like the distance.
 pub(crate) fn max_edit_distance(name_len: usize) -> usize {
     if name_len <= 4 { 1 } else { 2 }
 }
-- 
2.43.0


From 391c8cac95d80aecbe0b305577fb8131eb65de8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:39 +0000
Subject: [PATCH 04/33] fix: point lexer errors at the right bytes after
 non-ASCII text

---
 src/reader.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index c9f6196..9769b5f 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -1811,7 +1811,8 @@ fn extract_line_prefix(msg: &str) -> &str {
 }
 
 /// Convert 1-based `line` and 0-based `column` (as reported by ANTLR) to a
-/// byte offset into `source`. Returns 0 if the coordinates are out of range.
+/// byte offset into `source`. ANTLR counts columns in characters, so the
+/// column has to be converted. Returns 0 if the coordinates are out of range.
 fn line_col_to_byte_offset(source: &str, line: isize, column: isize) -> usize {
     if line <= 0 || column < 0 {
         return 0;
@@ -1820,7 +1821,11 @@ fn line_col_to_byte_offset(source: &str, line: isize, column: isize) -> usize {
     let mut offset = 0;
     for (i, src_line) in source.split('\n').enumerate() {
         if i == target_line {
-            return offset + (column as usize).min(src_line.len());
+            return offset
+                + src_line
+                    .char_indices()
+                    .nth(column as usize)
+                    .map_or(src_line.len(), |(byte, _)| byte);
         }
         offset += src_line.len() + 1; // +1 for the newline character
     }
@@ -1873,7 +1878,8 @@ impl<'a, T: Recognizer<'a>> ErrorListener<'a, T> for CollectingErrorListener {
                 // the byte offset from (line, column) using the source text.
                 if let Some(src) = self.source {
                     let offset = line_col_to_byte_offset(src, line, column);
-                    (offset, 1)
+                    let length = src[offset..].chars().next().map_or(1, char::len_utf8);
+                    (offset, length)
                 } else {
                     (0, 0)
                 }
-- 
2.43.0


From c4ed5b504cb8a496f7518ca3cadfa79d29e14861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:00 +0000
Subject: [PATCH 05/33] fix: report undefined names in a deterministic order,
 at their first use

---
 src/compiler.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/compiler.rs b/src/compiler.rs
index ec32119..7e4cbfe 100644
--- a/src/compiler.rs
+++ b/src/compiler.rs
@@ -1043,6 +1043,18 @@ fn validate_all_references(
         }
     }
 
+    // Sort by source span so the first error in the file is reported first.
+    // References without a span (from JSON imports) sort to the end, by name.
+    // This must not depend on the order of collection, as messages are kept in
+    // a `HashMap`.
+    unresolved.sort_by(|(a_name, a_span), (b_name, b_span)| {
+        let key = |span: &Option<SpanWithSource>| {
+            let span = span.as_ref();
+            (span.is_none(), span.map(|s| (s.name, s.offset)))
+        };
+        (key(a_span), a_name).cmp(&(key(b_span), b_name))
+    });
+
     // Deduplicate by name while preserving source order (first occurrence
     // wins). We use a `HashSet` to track which names we've already seen,
     // retaining the entry whose span appears earliest in the file.
@@ -1051,13 +1063,6 @@ fn validate_all_references(
         unresolved.retain(|(name, _)| seen.insert(name.clone()));
     }
 
-    // Sort by source span offset so the first error in the file is reported
-    // first. References without a span (from JSON imports) sort to the end.
-    unresolved.sort_by_key(|(_, span)| {
-        span.as_ref()
-            .map_or(("", usize::MAX), |s| (s.name, s.offset))
-    });
-
     if unresolved.is_empty() {
         return Ok(());
     }
-- 
2.43.0


From efe4dea2adbb051ecc35b2b76f4c1f7d2cdcb237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:13 +0000
Subject: [PATCH 06/33] fix: list annotations dropped from a union in a
 deterministic order

---
 src/reader.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/reader.rs b/src/reader.rs
index 9769b5f..e448f70 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -3268,7 +3268,8 @@ fn walk_full_type<'input>(
     // drops them without feedback. Nullable unions (`type?` syntax) are fine
     // because annotations are applied to the non-null branch instead.
     if !props.properties.is_empty() && is_non_nullable_union(&schema) {
-        let keys: Vec<&str> = props.properties.keys().map(|k| k.as_str()).collect();
+        let mut keys: Vec<&str> = props.properties.keys().map(|k| k.as_str()).collect();
+        keys.sort_unstable(); // `HashMap` order would differ between runs
         src.warnings
             .borrow_mut()
             .push(Warning::annotations_dropped_on_union(&keys, src, ctx));
-- 
2.43.0


From 539f030ee67121fd2e3bb5d5c5639ccde8bc12b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:18 +0000
Subject: [PATCH 07/33] fix: refuse annotations that would overwrite the
 attributes of a logical type

---
 src/reader.rs | 40 ++++++++++++++++++++++++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/src/reader.rs b/src/reader.rs
index e448f70..a92ce95 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -3275,6 +3275,17 @@ fn walk_full_type<'input>(
             .push(Warning::annotations_dropped_on_union(&keys, src, ctx));
     }
 
+    // The attributes that make up a logical type keyword (`date`, `decimal(4, 2)`)
+    // may not be replaced by annotations. Java fails in `JsonProperties.addProp()`
+    // with "Can't overwrite property".
+    if let Some(key) = overwritten_logical_attribute(&schema, &props.properties) {
+        return Err(make_diagnostic(
+            src,
+            ctx,
+            format!("Can't overwrite property: {key}"),
+        ));
+    }
+
     // Apply custom properties to the schema. For nullable unions we apply
     // properties to the non-null branch (matching the Java behavior).
     let schema = if !props.properties.is_empty() {
@@ -4326,6 +4337,35 @@ fn apply_properties(schema: AvroSchema, properties: HashMap<String, Value>) -> A
     }
 }
 
+/// The first attribute of a logical type (or of the branch of a nullable type
+/// that is one) that `properties` would replace with another value, if any.
+fn overwritten_logical_attribute(
+    schema: &AvroSchema,
+    properties: &HashMap<String, Value>,
+) -> Option<&'static str> {
+    let logical_type = match schema {
+        AvroSchema::Logical { logical_type, .. } => logical_type,
+        AvroSchema::Union {
+            types,
+            is_nullable_type: true,
+        } => {
+            return types
+                .iter()
+                .find_map(|t| overwritten_logical_attribute(t, properties));
+        }
+        _ => return None,
+    };
+    let mut attributes = vec![("logicalType", Value::from(logical_type.name()))];
+    if let LogicalType::Decimal { precision, scale } = logical_type {
+        attributes.push(("precision", Value::from(*precision)));
+        attributes.push(("scale", Value::from(*scale)));
+    }
+    attributes
+        .into_iter()
+        .find(|(key, value)| properties.get(*key).is_some_and(|v| v != value))
+        .map(|(key, _)| key)
+}
+
 /// Apply properties directly to a single schema node.
 ///
 /// Merges the given properties into the schema using
-- 
2.43.0


From bbe146ee0941211e32cce38ce03c45dc4ff97252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:28 +0000
Subject: [PATCH 08/33] fix: ignore logical types that do not fit their base
 type, keeping all attributes

---
 src/import.rs | 28 +++++++++++++++++++---------
 src/reader.rs |  9 +++++++++
 2 files changed, 28 insertions(+), 9 deletions(-)

diff --git a/src/import.rs b/src/import.rs
index ee5f676..138de01 100644
--- a/src/import.rs
+++ b/src/import.rs
@@ -686,25 +686,35 @@ fn parse_annotated_primitive(
         let scale_u64 = obj.get("scale").and_then(|s| s.as_u64());
         let scale = scale_u64.and_then(|v| u32::try_from(v).ok());
 
-        if let Some(lt) = parse_logical_type(logical, precision, scale) {
+        // Like the IDL reader, only treat the annotation as a logical type if it
+        // fits the base type (and a decimal's scale is usable): anything else is
+        // a plain primitive with extra attributes.
+        if let Some(lt) = parse_logical_type(logical, precision, scale)
+            && lt.expected_base_type().as_str() == prim
+            && (scale.is_some()
+                || !matches!(lt, LogicalType::Decimal { .. })
+                || !obj.contains_key("scale"))
+        {
             // For decimal, validate that precision >= 1 (the shared helper
             // returns None when precision is absent, but we also need to
-            // reject explicit zero).
-            if let LogicalType::Decimal { precision, .. } = &lt
-                && *precision < 1
-            {
-                miette::bail!("decimal precision must be >= 1");
+            // reject explicit zero). Its parameters are part of the type;
+            // those of other logical types are just extra attributes.
+            let mut consumed = vec!["type", "logicalType"];
+            if let LogicalType::Decimal { precision, .. } = &lt {
+                if *precision < 1 {
+                    miette::bail!("decimal precision must be >= 1");
+                }
+                consumed.extend(["precision", "scale"]);
             }
 
-            let properties =
-                collect_extra_properties(obj, &["type", "logicalType", "precision", "scale"]);
+            let properties = collect_extra_properties(obj, &consumed);
             return Ok(AvroSchema::Logical {
                 logical_type: lt,
                 properties,
             });
         }
 
-        // Unknown logical type -- preserve as properties on AnnotatedPrimitive.
+        // Unknown or unfitting logical type -- preserve as properties on AnnotatedPrimitive.
         let properties = collect_extra_properties(obj, &["type"]);
         return Ok(AvroSchema::AnnotatedPrimitive {
             kind: str_to_primitive_type(prim),
diff --git a/src/reader.rs b/src/reader.rs
index a92ce95..05357d2 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -4429,6 +4429,15 @@ fn try_promote_logical_type(schema: AvroSchema) -> AvroSchema {
                 return AvroSchema::AnnotatedPrimitive { kind, properties };
             }
 
+            // A scale that is not a valid number invalidates the decimal; it must
+            // not be replaced by the default scale.
+            if matches!(logical_type, LogicalType::Decimal { .. })
+                && scale.is_none()
+                && properties.contains_key("scale")
+            {
+                return AvroSchema::AnnotatedPrimitive { kind, properties };
+            }
+
             // Remove the consumed keys from properties so they are not
             // duplicated in the serialized output.
             properties.remove("logicalType");
-- 
2.43.0


From 3d1c11cd831ec6d8c4df0197ed862a73f5d6f0b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:58 +0000
Subject: [PATCH 09/33] fix: honour the namespace of a dotted protocol name in
 JSON imports

---
 src/import.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/import.rs b/src/import.rs
index 138de01..e9d520f 100644
--- a/src/import.rs
+++ b/src/import.rs
@@ -309,7 +309,13 @@ pub fn import_protocol(
     let json: Value = parse_json_with_comments(&content)
         .map_err(|e| miette::miette!("invalid JSON in {}: {e}", path.display()))?;
 
-    let default_namespace = json.get("namespace").and_then(|n| n.as_str());
+    // The name qualification rules of schemas apply to protocols as well: the
+    // namespace of a dotted name wins over the "namespace" attribute.
+    let default_namespace = json
+        .get("protocol")
+        .and_then(|n| n.as_str())
+        .and_then(|n| split_full_name(n).1)
+        .or_else(|| json.get("namespace").and_then(|n| n.as_str()));
     let mut messages = HashMap::new();
 
     // Extract types from the protocol JSON and register them. Schemas are
-- 
2.43.0


From 13b1ad27ddca8232dee2163f20f89eb72b7fe905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:10 +0000
Subject: [PATCH 10/33] fix: accept the smallest 64-bit integer in hexadecimal
 and octal

---
 src/reader.rs | 38 ++++++++++++++++----------------------
 1 file changed, 16 insertions(+), 22 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 05357d2..64690e3 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -4004,30 +4004,24 @@ fn parse_integer_literal(text: &str) -> Result<Value> {
     };
 
     // Parse the number. Java's `Long.decode` handles "0x", "0X", "#", and
-    // octal (leading "0"). We replicate that logic.
-    let long_value: i64 = if number.starts_with("0x") || number.starts_with("0X") {
-        let hex = &number[2..];
-        i64::from_str_radix(hex, 16)
-            .map_err(|e| miette::miette!("invalid hex integer literal '{text}': {e}"))?
-    } else if number.starts_with('-') && (number.starts_with("-0x") || number.starts_with("-0X")) {
-        let hex = &number[3..];
-        let abs = i64::from_str_radix(hex, 16)
-            .map_err(|e| miette::miette!("invalid hex integer literal '{text}': {e}"))?;
-        -abs
-    } else if number.starts_with('0') && number.len() > 1 && !number.contains('.') {
-        // Octal.
-        i64::from_str_radix(&number, 8)
-            .map_err(|e| miette::miette!("invalid octal integer literal '{text}': {e}"))?
-    } else if number.starts_with("-0") && number.len() > 2 && !number.contains('.') {
-        let oct = &number[1..];
-        let abs = i64::from_str_radix(oct, 8)
-            .map_err(|e| miette::miette!("invalid octal integer literal '{text}': {e}"))?;
-        -abs
+    // octal (leading "0"). We replicate that logic. The sign is parsed along
+    // with the digits because `i64::MIN` has no positive counterpart.
+    let (sign, unsigned) = match number.strip_prefix('-') {
+        Some(rest) => ("-", rest),
+        None => ("", number.as_str()),
+    };
+    let (kind, digits, radix) = if let Some(hex) = unsigned
+        .strip_prefix("0x")
+        .or_else(|| unsigned.strip_prefix("0X"))
+    {
+        ("hex ", hex, 16)
+    } else if unsigned.starts_with('0') && unsigned.len() > 1 {
+        ("octal ", unsigned, 8)
     } else {
-        number
-            .parse::<i64>()
-            .map_err(|e| miette::miette!("invalid integer literal '{text}': {e}"))?
+        ("", unsigned, 10)
     };
+    let long_value = i64::from_str_radix(&format!("{sign}{digits}"), radix)
+        .map_err(|e| miette::miette!("invalid {kind}integer literal '{text}': {e}"))?;
 
     let int_value = long_value as i32;
     if coerce_to_long || int_value as i64 != long_value {
-- 
2.43.0


From f74863064785a7020bdda65838c990a431785d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:40 +0000
Subject: [PATCH 11/33] fix: round hexadecimal floating-point literals
 correctly over their whole range

---
 src/reader.rs | 96 +++++++++++++++++++++++++++++++++------------------
 1 file changed, 63 insertions(+), 33 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 64690e3..6402830 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -4128,44 +4128,74 @@ fn parse_hex_float_mantissa_and_exponent(hex_body: &str, original: &str) -> Resu
         miette::miette!("invalid hex float literal '{original}': missing 'p'/'P' exponent")
     })?;
 
-    // Parse the binary exponent (decimal integer, possibly signed).
-    let exponent: i32 = exp_str
-        .parse()
-        .map_err(|e| miette::miette!("invalid hex float exponent in '{original}': {e}"))?;
-
-    // Parse the hex mantissa, which may contain a '.' decimal point.
-    let mantissa = if let Some((int_part, frac_part)) = mantissa_str.split_once('.') {
-        // Integer part: each hex digit contributes its value in the
-        // corresponding hex place.
-        let int_val = if int_part.is_empty() {
-            0.0
-        } else {
-            u64::from_str_radix(int_part, 16)
-                .map_err(|e| miette::miette!("invalid hex float mantissa in '{original}': {e}"))?
-                as f64
-        };
+    // Parse the binary exponent (decimal integer, possibly signed). Exponents
+    // that do not even fit 32 bits are clamped; the result is then 0 or infinite.
+    let exponent = exp_str.parse::<i32>().or_else(|e| match e.kind() {
+        std::num::IntErrorKind::PosOverflow => Ok(i32::MAX),
+        std::num::IntErrorKind::NegOverflow => Ok(i32::MIN),
+        _ => Err(miette::miette!(
+            "invalid hex float exponent in '{original}': {e}"
+        )),
+    })?;
 
-        // Fractional part: each hex digit after the point represents
-        // 1/16, 1/256, etc. of its value.
-        let mut frac_val = 0.0_f64;
-        let mut place = 1.0_f64 / 16.0;
-        for ch in frac_part.chars() {
-            let digit = ch.to_digit(16).ok_or_else(|| {
-                miette::miette!("invalid hex digit '{ch}' in float literal '{original}'")
-            })? as f64;
-            frac_val += digit * place;
-            place /= 16.0;
+    // Collect the mantissa's leading digits into an integer, scaling by 16 for
+    // each integer digit that no longer fits and by 1/16 for each fractional
+    // digit that does. Whether any digit beyond them is non-zero only matters
+    // for rounding, so that is kept in the lowest bit.
+    let mut mantissa: u64 = 0;
+    let mut scale = i64::from(exponent);
+    let mut in_fraction = false;
+    let mut sticky = false;
+    for ch in mantissa_str.chars() {
+        if ch == '.' && !in_fraction {
+            in_fraction = true;
+            continue;
+        }
+        let digit = ch.to_digit(16).ok_or_else(|| {
+            miette::miette!("invalid hex digit '{ch}' in float literal '{original}'")
+        })?;
+        if mantissa >> 58 == 0 {
+            mantissa = mantissa << 4 | u64::from(digit);
+            scale -= if in_fraction { 4 } else { 0 };
+        } else {
+            sticky |= digit != 0;
+            scale += if in_fraction { 0 } else { 4 };
         }
+    }
+
+    Ok(scale_rounded(mantissa << 1 | u64::from(sticky), scale - 1))
+}
 
-        int_val + frac_val
+/// `mantissa * 2^exponent`, rounded once to the nearest double (ties to even).
+fn scale_rounded(mantissa: u64, exponent: i64) -> f64 {
+    if mantissa == 0 {
+        return 0.0;
+    }
+    let top = exponent + i64::from(63 - mantissa.leading_zeros());
+    if top > 1023 {
+        return f64::INFINITY;
+    }
+    // The weight of the lowest bit the result can hold.
+    let low = (top - 52).max(-1074);
+    let quotient = match low - exponent {
+        // Exact: there are fewer significant bits than a double holds.
+        shift @ ..=0 => mantissa << -shift,
+        shift @ 1..=63 => {
+            let quotient = mantissa >> shift;
+            let remainder = mantissa & ((1 << shift) - 1);
+            let half = 1 << (shift - 1);
+            let round_up = remainder > half || remainder == half && quotient & 1 == 1;
+            quotient + u64::from(round_up)
+        }
+        // Below half of the smallest subnormal.
+        _ => 0,
+    };
+    let unit = if low >= -1022 {
+        f64::from_bits(((low + 1023) as u64) << 52)
     } else {
-        // No decimal point — the mantissa is a plain hex integer.
-        u64::from_str_radix(mantissa_str, 16)
-            .map_err(|e| miette::miette!("invalid hex float mantissa in '{original}': {e}"))?
-            as f64
+        f64::from_bits(1 << (low + 1074))
     };
-
-    Ok(mantissa * 2.0_f64.powi(exponent))
+    quotient as f64 * unit
 }
 
 /// Parse an integer literal text into a u32 (for fixed size, decimal precision/scale).
-- 
2.43.0


From 4e8eb025a3097a257ee5e66362306dd709b088cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:31 +0000
Subject: [PATCH 12/33] fix: check defaults of recursive and widely shared
 types completely and without blow-up

---
 src/model/schema.rs | 228 +++++++++++++++-----------------------------
 1 file changed, 79 insertions(+), 149 deletions(-)

diff --git a/src/model/schema.rs b/src/model/schema.rs
index 9963f9e..bb3c304 100644
--- a/src/model/schema.rs
+++ b/src/model/schema.rs
@@ -702,7 +702,31 @@ fn is_json_integer(n: &serde_json::Number) -> bool {
 /// For `Reference` types (forward references not yet resolved), validation is
 /// skipped and `true` is returned, because the referenced type is not available
 /// for inspection at parse time.
+#[cfg(test)]
 pub fn is_valid_default(value: &Value, schema: &AvroSchema) -> bool {
+    is_valid_default_in(value, schema, &mut DefaultScope::new(&|_| None))
+}
+
+/// The types that references may denote while a default value is checked.
+struct DefaultScope<'a> {
+    lookup: &'a dyn Fn(&str) -> Option<AvroSchema>,
+    /// Verdicts for values (by address) against named types. The same value can
+    /// be checked against a type many times, as a branch of nested unions.
+    verdicts: HashMap<(*const Value, std::string::String), bool>,
+}
+
+impl<'a> DefaultScope<'a> {
+    fn new(lookup: &'a dyn Fn(&str) -> Option<AvroSchema>) -> Self {
+        DefaultScope {
+            lookup,
+            verdicts: HashMap::new(),
+        }
+    }
+}
+
+/// Like [`is_valid_default`], but looks references up in `scope`. Only as much
+/// of the (possibly recursive) types is looked at as the value is deep.
+fn is_valid_default_in(value: &Value, schema: &AvroSchema, scope: &mut DefaultScope) -> bool {
     match schema {
         // =====================================================================
         // Primitives: each has exactly one valid JSON type.
@@ -747,7 +771,7 @@ pub fn is_valid_default(value: &Value, schema: &AvroSchema) -> bool {
             for field in fields {
                 if let Some(field_val) = obj.get(&field.name) {
                     // Default object provides a value for this field -- validate it.
-                    if !is_valid_default(field_val, &field.schema) {
+                    if !is_valid_default_in(field_val, &field.schema, scope) {
                         return false;
                     }
                 } else if field.default.is_none() {
@@ -771,7 +795,8 @@ pub fn is_valid_default(value: &Value, schema: &AvroSchema) -> bool {
                 Some(a) => a,
                 None => return false,
             };
-            arr.iter().all(|elem| is_valid_default(elem, items))
+            arr.iter()
+                .all(|elem| is_valid_default_in(elem, items, scope))
         }
         AvroSchema::Map { values, .. } => {
             // The default must be a JSON object where every value is valid
@@ -780,7 +805,8 @@ pub fn is_valid_default(value: &Value, schema: &AvroSchema) -> bool {
                 Some(o) => o,
                 None => return false,
             };
-            obj.values().all(|val| is_valid_default(val, values))
+            obj.values()
+                .all(|val| is_valid_default_in(val, values, scope))
         }
 
         // Java's `Schema.isValidDefault` checks whether the default matches
@@ -791,37 +817,73 @@ pub fn is_valid_default(value: &Value, schema: &AvroSchema) -> bool {
             if types.is_empty() {
                 false
             } else {
-                types.iter().any(|branch| is_valid_default(value, branch))
+                types
+                    .iter()
+                    .any(|branch| is_valid_default_in(value, branch, scope))
             }
         }
 
         // =====================================================================
         // Annotated primitives: validate against the underlying primitive type.
         // =====================================================================
-        AvroSchema::AnnotatedPrimitive { kind, .. } => is_valid_default(value, &kind.to_schema()),
+        AvroSchema::AnnotatedPrimitive { kind, .. } => {
+            is_valid_default_in(value, &kind.to_schema(), scope)
+        }
 
         // =====================================================================
         // Logical types: validate against the underlying physical type.
         // =====================================================================
         AvroSchema::Logical { logical_type, .. } => {
-            is_valid_default(value, &logical_type.expected_base_type().to_schema())
+            is_valid_default_in(value, &logical_type.expected_base_type().to_schema(), scope)
         }
 
         // =====================================================================
-        // Forward references: skip validation because the referenced type is
-        // not yet resolved at parse time.
+        // References: check against the referenced type if it is known. Skip
+        // validation of forward references, whose type is not yet available.
         // =====================================================================
-        AvroSchema::Reference { .. } => true,
+        AvroSchema::Reference {
+            name, namespace, ..
+        } => {
+            let full_name = make_full_name(name, namespace.as_deref()).into_owned();
+            let key = (value as *const Value, full_name);
+            if let Some(&verdict) = scope.verdicts.get(&key) {
+                return verdict;
+            }
+            let verdict = match (scope.lookup)(&key.1) {
+                Some(resolved) => is_valid_default_in(value, &resolved, scope),
+                None => true,
+            };
+            scope.verdicts.insert(key, verdict);
+            verdict
+        }
     }
 }
 
 /// Returns a human-readable description of why a default value is invalid,
 /// or `None` if the value is valid for the schema.
 pub fn validate_default(value: &Value, schema: &AvroSchema) -> Option<String> {
-    if is_valid_default(value, schema) {
+    validate_default_in(value, schema, &mut DefaultScope::new(&|_| None))
+}
+
+/// Like [`validate_default`], but looks references up in `scope`.
+fn validate_default_in(
+    value: &Value,
+    schema: &AvroSchema,
+    scope: &mut DefaultScope,
+) -> Option<String> {
+    if is_valid_default_in(value, schema, scope) {
         return None;
     }
 
+    // Describe the mismatch in terms of the referenced type.
+    if let AvroSchema::Reference {
+        name, namespace, ..
+    } = schema
+        && let Some(resolved) = (scope.lookup)(&make_full_name(name, namespace.as_deref()))
+    {
+        return validate_default_in(value, &resolved, scope);
+    }
+
     // Produce a more specific message for integer values that are the right JSON
     // type but fall outside the schema's numeric range.
     if let Value::Number(n) = value
@@ -869,7 +931,7 @@ pub fn validate_default(value: &Value, schema: &AvroSchema) -> Option<String> {
         // Check for fields with invalid default values.
         for field in fields {
             if let Some(field_val) = obj.get(&field.name)
-                && let Some(reason) = validate_default(field_val, &field.schema)
+                && let Some(reason) = validate_default_in(field_val, &field.schema, scope)
             {
                 return Some(format!(
                     "invalid value for field `{}`: {reason}",
@@ -914,151 +976,19 @@ where
             None => continue,
         };
 
-        // Only intervene for Reference types (and unions containing them).
-        // Non-Reference types are already validated at parse time by
-        // `walk_variable` in reader.rs.
-        let resolved_schema = resolve_for_validation(&field.schema, &resolver);
-        if let Some(ref resolved) = resolved_schema
-            && let Some(reason) = validate_default(default_val, resolved)
-        {
+        // Only defaults of types with references can fail here: all others were
+        // already validated at parse time by `walk_variable` in reader.rs.
+        // References that cannot be resolved (true forward references) are not
+        // checked.
+        let mut scope = DefaultScope::new(&resolver);
+        if let Some(reason) = validate_default_in(default_val, &field.schema, &mut scope) {
             errors.push((field.name.clone(), reason));
         }
-        // If resolve_for_validation returns None, the reference could not be
-        // resolved (true forward reference), so we skip validation.
     }
 
     errors
 }
 
-/// Attempt to resolve `Reference` types in a schema for default validation.
-///
-/// Returns `Some(resolved_schema)` if all references in the schema can be
-/// resolved, or `None` if any reference is unresolvable (forward reference).
-/// For non-Reference types, returns the schema unchanged.
-///
-/// This function performs deep resolution: it recursively resolves References
-/// inside record fields, array items, map values, and union branches. This is
-/// necessary for validating nested record defaults where inner types may also
-/// be References.
-fn resolve_for_validation<F>(schema: &AvroSchema, resolver: &F) -> Option<AvroSchema>
-where
-    F: Fn(&str) -> Option<AvroSchema>,
-{
-    use std::collections::HashSet;
-    let mut visited = HashSet::new();
-    resolve_for_validation_inner(schema, resolver, &mut visited)
-}
-
-/// Inner recursive function with cycle detection via a `visited` set.
-fn resolve_for_validation_inner<F>(
-    schema: &AvroSchema,
-    resolver: &F,
-    visited: &mut std::collections::HashSet<String>,
-) -> Option<AvroSchema>
-where
-    F: Fn(&str) -> Option<AvroSchema>,
-{
-    match schema {
-        AvroSchema::Reference {
-            name, namespace, ..
-        } => {
-            let full_name = make_full_name(name, namespace.as_deref()).into_owned();
-            // Cycle detection: if we've already seen this type, return a
-            // placeholder that will pass basic JSON type validation.
-            // Cyclic types can still have valid defaults (e.g., a tree node
-            // where child references are nullable), so we don't fail here.
-            if visited.contains(&full_name) {
-                // Return the Reference as-is; is_valid_default treats Reference
-                // as "skip validation", which is appropriate for cyclic refs.
-                return Some(schema.clone());
-            }
-            // Resolve the reference first, then recursively resolve any nested
-            // References inside the resolved type.
-            resolver(&full_name)
-                .and_then(|resolved| resolve_for_validation_inner(&resolved, resolver, visited))
-        }
-        AvroSchema::Union {
-            types,
-            is_nullable_type,
-        } => {
-            // Resolve any Reference branches within the union. If any branch
-            // is an unresolvable forward reference, skip validation for the
-            // entire union.
-            let mut resolved_types = Vec::with_capacity(types.len());
-            for branch in types {
-                match resolve_for_validation_inner(branch, resolver, visited) {
-                    Some(resolved) => resolved_types.push(resolved),
-                    None => return None,
-                }
-            }
-            Some(AvroSchema::Union {
-                types: resolved_types,
-                is_nullable_type: *is_nullable_type,
-            })
-        }
-        AvroSchema::Record {
-            name,
-            namespace,
-            doc,
-            fields,
-            is_error,
-            aliases,
-            properties,
-        } => {
-            // Mark this record as being visited to detect cycles.
-            let full_name = make_full_name(name, namespace.as_deref()).into_owned();
-            visited.insert(full_name.clone());
-
-            // Recursively resolve References inside record fields so that
-            // nested record default validation can see the full types.
-            let mut resolved_fields = Vec::with_capacity(fields.len());
-            for field in fields {
-                let resolved_schema =
-                    resolve_for_validation_inner(&field.schema, resolver, visited)?;
-                resolved_fields.push(Field {
-                    name: field.name.clone(),
-                    schema: resolved_schema,
-                    doc: field.doc.clone(),
-                    default: field.default.clone(),
-                    order: field.order.clone(),
-                    aliases: field.aliases.clone(),
-                    properties: field.properties.clone(),
-                });
-            }
-
-            // Unmark after processing this record's fields.
-            visited.remove(&full_name);
-
-            Some(AvroSchema::Record {
-                name: name.clone(),
-                namespace: namespace.clone(),
-                doc: doc.clone(),
-                fields: resolved_fields,
-                is_error: *is_error,
-                aliases: aliases.clone(),
-                properties: properties.clone(),
-            })
-        }
-        AvroSchema::Array { items, properties } => {
-            let resolved_items = resolve_for_validation_inner(items, resolver, visited)?;
-            Some(AvroSchema::Array {
-                items: Box::new(resolved_items),
-                properties: properties.clone(),
-            })
-        }
-        AvroSchema::Map { values, properties } => {
-            let resolved_values = resolve_for_validation_inner(values, resolver, visited)?;
-            Some(AvroSchema::Map {
-                values: Box::new(resolved_values),
-                properties: properties.clone(),
-            })
-        }
-        // For primitives, enums, fixed, logical types, and annotated primitives,
-        // the schema is already concrete and does not need resolution.
-        other => Some(other.clone()),
-    }
-}
-
 #[cfg(test)]
 impl Field {
     /// Create a field with no aliases, properties, doc, default, or order.
-- 
2.43.0


From d81239bda68dcdc191982bd714c1017db9b931d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:17 +0000
Subject: [PATCH 13/33] fix: deliver warnings of the latest call only, and
 those of earlier files of a directory

---
 src/compiler.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/compiler.rs b/src/compiler.rs
index 7e4cbfe..5c82c24 100644
--- a/src/compiler.rs
+++ b/src/compiler.rs
@@ -92,6 +92,9 @@ impl IdlCompiler {
     /// `Idl2Schemata::extract(path)`. It reads the file, determines the parent
     /// directory and canonical path, then delegates to [`compile`](Self::compile).
     fn compile_file(&mut self, path: &Path) -> miette::Result<CompileOutput> {
+        // `compile` also clears, but is not reached when reading fails.
+        self.accumulated_warnings.clear();
+
         let source = fs::read_to_string(path)
             .map_err(|e| miette::miette!("{e}"))
             .with_context(|| format!("read {}", path.display()))?;
@@ -117,6 +120,9 @@ impl IdlCompiler {
         source: &'static str,
         name: &'static str,
     ) -> miette::Result<CompileOutput> {
+        // `compile` also clears, but is not reached when this fails.
+        self.accumulated_warnings.clear();
+
         let cwd = std::env::current_dir()
             .map_err(|e| miette::miette!("{e}"))
             .context("determine current directory")?;
@@ -493,6 +499,8 @@ impl Idl2Schemata {
     /// each. Each file is processed independently with its own registry.
     /// Results are concatenated.
     fn extract_directory(&mut self, dir: &Path) -> miette::Result<SchemataOutput> {
+        self.inner.accumulated_warnings.clear();
+
         let mut all_schemas = Vec::new();
         let mut all_warnings = Vec::new();
 
@@ -509,7 +517,15 @@ impl Idl2Schemata {
         }
 
         for avdl_path in &avdl_paths {
-            let compiled = self.inner.compile_file(avdl_path)?;
+            let compiled = match self.inner.compile_file(avdl_path) {
+                Ok(compiled) => compiled,
+                Err(e) => {
+                    // Keep the warnings of the files before this one.
+                    all_warnings.append(&mut self.inner.accumulated_warnings);
+                    self.inner.accumulated_warnings = all_warnings;
+                    return Err(e);
+                }
+            };
             let output = Self::extract_impl(compiled);
             all_schemas.extend(output.schemas);
             all_warnings.extend(output.warnings);
-- 
2.43.0


From e733a5203739354057b1b3cbb906bcf9bf0ce1db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:20 +0000
Subject: [PATCH 14/33] fix: do not take a directory named like an IDL file for
 one

---
 src/compiler.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler.rs b/src/compiler.rs
index 5c82c24..0bd5424 100644
--- a/src/compiler.rs
+++ b/src/compiler.rs
@@ -511,7 +511,7 @@ impl Idl2Schemata {
             .filter_map(|e| e.ok())
         {
             let path = entry.path();
-            if path.extension().and_then(|e| e.to_str()) == Some("avdl") {
+            if path.extension().and_then(|e| e.to_str()) == Some("avdl") && !path.is_dir() {
                 avdl_paths.push(path.to_path_buf());
             }
         }
-- 
2.43.0


From 0582644608be64e5768a19227e03fec0364b84e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:48 +0000
Subject: [PATCH 15/33] fix: refuse superfluous command-line arguments instead
 of ignoring them

---
 src/main.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 8d36c85..258a623 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -77,7 +77,7 @@ fn parse_idl_args(parser: &mut lexopt::Parser) -> Result<IdlArgs, lexopt::Error>
                 println!("{IDL_HELP}");
                 std::process::exit(0);
             }
-            Value(val) => {
+            Value(val) if positionals.len() < 2 => {
                 positionals.push(val.string()?);
             }
             _ => return Err(arg.unexpected()),
@@ -109,7 +109,7 @@ fn parse_idl2schemata_args(parser: &mut lexopt::Parser) -> Result<Idl2schemataAr
                 println!("{IDL2SCHEMATA_HELP}");
                 std::process::exit(0);
             }
-            Value(val) => {
+            Value(val) if positionals.len() < 2 => {
                 positionals.push(val.string()?);
             }
             _ => return Err(arg.unexpected()),
-- 
2.43.0


From de054d3976f684910463bdf88e32d78850271ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:50 +0000
Subject: [PATCH 16/33] fix: report a failure to write the end of the output

---
 src/main.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 258a623..3db63b1 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -304,9 +304,11 @@ fn write_output(output: Option<&str>, content: &str) -> miette::Result<()> {
     match file_path {
         None => {
             // Write to stdout without trailing newline, matching Java behavior.
-            // Handle BrokenPipe gracefully.
+            // Handle BrokenPipe gracefully. Flush explicitly: the last line is
+            // buffered, and errors writing it at exit would go unnoticed.
             use std::io::Write;
-            if let Err(e) = write!(io::stdout(), "{content}") {
+            let mut stdout = io::stdout();
+            if let Err(e) = write!(stdout, "{content}").and_then(|()| stdout.flush()) {
                 if e.kind() == io::ErrorKind::BrokenPipe {
                     return Ok(());
                 }
-- 
2.43.0


From b2e7882da0a19ff6804cc97eb25fd9eb1da3e196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:37 +0000
Subject: [PATCH 17/33] fix: a SUB character inside a string or comment does
 not end the file

---
 src/reader.rs | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 6402830..397c654 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -34,7 +34,7 @@ use antlr4rust::token::Token;
 use antlr4rust::token_factory::TokenFactory;
 use antlr4rust::token_stream::TokenStream;
 use antlr4rust::tree::{ParseTree, Tree};
-use antlr4rust::{InputStream, TidExt};
+use antlr4rust::{InputStream, TidExt, TokenSource};
 use serde_json::Value;
 use std::collections::HashMap;
 
@@ -2012,6 +2012,27 @@ pub fn parse_idl_for_test(input: &'static str) -> Result<(IdlFile, Vec<DeclItem>
     parse_idl_named(input, "<input>")
 }
 
+/// Byte offset of the first ASCII SUB character (U+001A) that is a token of its
+/// own, if any. A SUB inside a string literal or a comment is ordinary content,
+/// so we have to ask the lexer which ones end the file.
+fn find_eof_marker(input: &'static str) -> Option<usize> {
+    if !input.contains('\u{001a}') {
+        return None;
+    }
+    let mut lexer = IdlLexer::new(InputStream::new(input));
+    // Lexer errors are reported when the input is actually parsed.
+    lexer.remove_error_listeners();
+    loop {
+        let token = lexer.next_token();
+        match token.get_token_type() {
+            // The grammar's literal '\u001a' is its first token type.
+            crate::generated::idllexer::T__0 => return Some(token.get_start() as usize),
+            antlr4rust::token::TOKEN_EOF => return None,
+            _ => {}
+        }
+    }
+}
+
 /// Parse an Avro IDL string, attaching `source_name` to any error diagnostics
 /// so that error messages identify the originating file.
 pub fn parse_idl_named(
@@ -2023,10 +2044,9 @@ pub fn parse_idl_named(
     // ignoring any trailing content. The antlr4rust runtime does not handle
     // this correctly, so we strip the SUB character and everything after it
     // before passing the input to the lexer.
-    let input = if let Some(pos) = input.find('\u{001a}') {
-        &input[..pos]
-    } else {
-        input
+    let input = match find_eof_marker(input) {
+        Some(pos) => &input[..pos],
+        None => input,
     };
     let input_stream = InputStream::new(input);
     let mut lexer = IdlLexer::new(input_stream);
-- 
2.43.0


From a6e84d39bc3322041acf54a3d3f772a5000835e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:19 +0000
Subject: [PATCH 18/33] fix: refuse field, parameter and symbol names that Avro
 does not allow

---
 src/reader.rs | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/reader.rs b/src/reader.rs
index 397c654..ff507ea 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -3035,6 +3035,7 @@ fn walk_variable<'input>(
         .identifier()
         .ok_or_else(|| make_diagnostic(src, ctx, "missing variable name"))?;
     let field_name = identifier_text(&name_ctx);
+    check_avro_name(&field_name, &name_ctx, src)?;
 
     // Walk the variable-level schema properties (e.g. @order, @aliases on a
     // specific variable rather than on the field type).
@@ -3098,6 +3099,27 @@ fn walk_variable<'input>(
     })
 }
 
+/// Refuse a field, parameter or enum symbol name that the grammar allows but the
+/// Avro specification does not (`a-b`, `a.b`), as Java's `Schema.validateName`
+/// does.
+fn check_avro_name<'input>(
+    name: &str,
+    ctx: &IdentifierContextAll<'input>,
+    src: &SourceInfo,
+) -> Result<()> {
+    if is_valid_avro_name(name) {
+        return Ok(());
+    }
+    Err(make_diagnostic(
+        src,
+        ctx,
+        format!(
+            "invalid Avro name: `{name}` (names must start with a letter or underscore, \
+             followed by letters, digits, or underscores)"
+        ),
+    ))
+}
+
 // ==========================================================================
 // Enum
 // ==========================================================================
@@ -3136,6 +3158,7 @@ fn walk_enum<'input>(
     for sym_ctx in ctx.enumSymbol_all() {
         if let Some(sym_name_ctx) = sym_ctx.identifier() {
             let sym_name = identifier_text(&sym_name_ctx);
+            check_avro_name(&sym_name, &sym_name_ctx, src)?;
             if !seen_symbols.insert(sym_name.clone()) {
                 return Err(make_diagnostic(
                     src,
-- 
2.43.0


From a76465a45e26ded307362193402dd6b4b0948b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:21 +0000
Subject: [PATCH 19/33] fix: report directories below an idl2schemata input
 that cannot be read

---
 src/compiler.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/compiler.rs b/src/compiler.rs
index 0bd5424..de743f2 100644
--- a/src/compiler.rs
+++ b/src/compiler.rs
@@ -505,11 +505,11 @@ impl Idl2Schemata {
         let mut all_warnings = Vec::new();
 
         let mut avdl_paths: Vec<PathBuf> = Vec::new();
-        for entry in walkdir::WalkDir::new(dir)
-            .sort_by_file_name()
-            .into_iter()
-            .filter_map(|e| e.ok())
-        {
+        for entry in walkdir::WalkDir::new(dir).sort_by_file_name() {
+            // Silently skipping what cannot be read would extract a part of the
+            // directory as if it were all of it.
+            let entry =
+                entry.map_err(|e| miette::miette!("{e}: read directory {}", dir.display()))?;
             let path = entry.path();
             if path.extension().and_then(|e| e.to_str()) == Some("avdl") && !path.is_dir() {
                 avdl_paths.push(path.to_path_buf());
-- 
2.43.0


From bbadc86326b22e0dd16c5c28332ac9c5641cde15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:37 +0000
Subject: [PATCH 20/33] fix: register named types defined inside the messages
 of an imported protocol

A message of a JSON protocol may define a record, enum, fixed or error where it
uses it. Such types were kept inline in the message only: the rest of the
compilation could not refer to them, and they were missing from the compiled
protocol's types.
---
 src/import.rs | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/src/import.rs b/src/import.rs
index e9d520f..6436234 100644
--- a/src/import.rs
+++ b/src/import.rs
@@ -283,11 +283,14 @@ fn flatten_schema_inner(schema: AvroSchema, collected: &mut Vec<AvroSchema>) ->
 ///
 /// Duplicate registrations are silently ignored (the first definition wins),
 /// matching Java's behavior for imports.
-fn flatten_and_register(schema: AvroSchema, registry: &mut SchemaRegistry) {
-    let (types, _top_level) = flatten_schema(schema);
+///
+/// Returns the flattened schema, which refers to the registered types by name.
+fn flatten_and_register(schema: AvroSchema, registry: &mut SchemaRegistry) -> AvroSchema {
+    let (types, top_level) = flatten_schema(schema);
     for t in types {
         let _ = registry.register(t);
     }
+    top_level
 }
 
 // ==============================================================================
@@ -337,12 +340,31 @@ pub fn import_protocol(
     // Extract messages.
     if let Some(msgs) = json.get("messages").and_then(|m| m.as_object()) {
         for (name, msg_json) in msgs {
-            let message = json_to_message(msg_json, default_namespace).map_err(|e| {
+            let mut message = json_to_message(msg_json, default_namespace).map_err(|e| {
                 miette::miette!(
                     "parse message `{name}` in protocol `{}`: {e}",
                     path.display()
                 )
             })?;
+
+            // A message may define named types where it uses them; they are
+            // types of the protocol like those in its `types` array.
+            message.request = message
+                .request
+                .into_iter()
+                .map(|field| crate::model::schema::Field {
+                    schema: flatten_and_register(field.schema, registry),
+                    ..field
+                })
+                .collect();
+            message.response = flatten_and_register(message.response, registry);
+            message.errors = message.errors.map(|errors| {
+                errors
+                    .into_iter()
+                    .map(|e| flatten_and_register(e, registry))
+                    .collect()
+            });
+
             messages.insert(name.clone(), message);
         }
     }
-- 
2.43.0


From d222b016389c596c61a5b3c35c175dedf89a432e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:44 +0000
Subject: [PATCH 21/33] fix: C20: braces in comments were taken for the
 unclosed brace of a syntax error

---
 src/reader.rs | 71 +++++++++++++++++++--------------------------------
 1 file changed, 26 insertions(+), 45 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index ff507ea..bada77c 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -1370,28 +1370,9 @@ fn detect_missing_close_brace_before_declaration(
         return None;
     }
 
-    // Count braces in the source up to (but not including) the error offset,
-    // to find the innermost unclosed `{`. We ignore braces inside strings.
-    let mut brace_stack: Vec<usize> = Vec::new();
-    let mut in_string = false;
-    let mut prev_backslash = false;
-    for (i, b) in source[..error.offset].bytes().enumerate() {
-        if in_string {
-            if b == b'"' && !prev_backslash {
-                in_string = false;
-            }
-            prev_backslash = b == b'\\' && !prev_backslash;
-            continue;
-        }
-        match b {
-            b'"' => in_string = true,
-            b'{' => brace_stack.push(i),
-            b'}' => {
-                brace_stack.pop();
-            }
-            _ => {}
-        }
-    }
+    // Look at the braces in the source up to (but not including) the error
+    // offset, to find the innermost unclosed `{`.
+    let brace_stack = unclosed_braces(&source[..error.offset]);
 
     // If there's no unclosed brace, this pattern doesn't apply.
     if brace_stack.is_empty() {
@@ -1677,29 +1658,7 @@ fn detect_unclosed_brace(error: &SyntaxError, source: &str) -> Option<SyntaxErro
         return None;
     }
 
-    // Count braces in the source, tracking positions of unmatched `{`.
-    // We ignore braces inside string literals (between unescaped `"`).
-    let mut brace_stack: Vec<usize> = Vec::new();
-    let mut in_string = false;
-    let mut prev_backslash = false;
-    for (i, b) in source.bytes().enumerate() {
-        if in_string {
-            if b == b'"' && !prev_backslash {
-                in_string = false;
-            }
-            prev_backslash = b == b'\\' && !prev_backslash;
-            continue;
-        }
-        match b {
-            b'"' => in_string = true,
-            b'{' => brace_stack.push(i),
-            b'}' => {
-                brace_stack.pop();
-            }
-            _ => {}
-        }
-    }
-
+    let brace_stack = unclosed_braces(source);
     if brace_stack.is_empty() {
         return None;
     }
@@ -1733,6 +1692,28 @@ fn detect_unclosed_brace(error: &SyntaxError, source: &str) -> Option<SyntaxErro
     })
 }
 
+/// Byte offsets of the `{` in `source` that have no matching `}`, outermost first.
+/// Braces inside string literals and comments don't count, so we go by the
+/// lexer's tokens.
+fn unclosed_braces(source: &str) -> Vec<usize> {
+    use crate::generated::idllexer::{LBrace, RBrace};
+
+    let mut lexer = IdlLexer::new(InputStream::new(source));
+    lexer.remove_error_listeners();
+    let mut brace_stack = Vec::new();
+    loop {
+        let token = lexer.next_token();
+        match token.get_token_type() {
+            LBrace => brace_stack.push(token.get_start() as usize),
+            RBrace => {
+                brace_stack.pop();
+            }
+            antlr4rust::token::TOKEN_EOF => return brace_stack,
+            _ => {}
+        }
+    }
+}
+
 /// Identifies the construct type (record, protocol, enum, etc.) by examining
 /// the source text immediately before an opening `{`.
 fn identify_construct(before_brace: &str) -> Option<&'static str> {
-- 
2.43.0


From 79de85cdb96fc56555ccc539c54cde5c7fbe8c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:22 +0000
Subject: [PATCH 22/33] fix: C20: the report on a file without protocol or
 schema marked part of a multi-byte character

---
 src/compiler.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler.rs b/src/compiler.rs
index de743f2..ccd944b 100644
--- a/src/compiler.rs
+++ b/src/compiler.rs
@@ -334,7 +334,7 @@ impl Idl {
             // via `drain_warnings()`.
             self.inner.accumulated_warnings = warnings;
 
-            let span_len = source.len().min(1);
+            let span_len = source.chars().next().map_or(0, char::len_utf8);
             return Err(ParseDiagnostic {
                 span: SpanWithSource::new(0, span_len, source_name, source),
                 message: "IDL file contains neither a protocol nor a schema declaration"
-- 
2.43.0


From 712357232402f0edadb74d0dfb61324f2529c2b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:11 +0000
Subject: [PATCH 23/33] fix: refuse imported records without fields and enums
 without symbols

They were taken for empty ones, and symbols which are not strings were dropped.
---
 src/import.rs | 36 ++++++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/src/import.rs b/src/import.rs
index 6436234..7789a64 100644
--- a/src/import.rs
+++ b/src/import.rs
@@ -529,19 +529,17 @@ fn parse_record(
     // Fields inherit the record's namespace (or the default) for resolving
     // unqualified type references.
     let ns_for_fields = namespace.as_deref().or(default_namespace);
-    let fields = if let Some(Value::Array(fields_json)) = obj.get("fields") {
-        fields_json
-            .iter()
-            .enumerate()
-            .map(|(i, f)| {
-                json_to_field(f, ns_for_fields).map_err(|e| {
-                    miette::miette!("parse field at index {i} of record `{name}`: {e}")
-                })
-            })
-            .collect::<Result<Vec<_>>>()?
-    } else {
-        vec![]
-    };
+    let fields = obj
+        .get("fields")
+        .and_then(|f| f.as_array())
+        .ok_or_else(|| miette::miette!("record `{name}` missing 'fields'"))?
+        .iter()
+        .enumerate()
+        .map(|(i, f)| {
+            json_to_field(f, ns_for_fields)
+                .map_err(|e| miette::miette!("parse field at index {i} of record `{name}`: {e}"))
+        })
+        .collect::<Result<Vec<_>>>()?;
 
     let aliases = extract_string_array(obj.get("aliases"));
 
@@ -580,7 +578,17 @@ fn parse_enum(
         .get("doc")
         .and_then(|d| d.as_str())
         .map(|s| s.to_string());
-    let symbols = extract_string_array(obj.get("symbols"));
+    let symbols = obj
+        .get("symbols")
+        .and_then(|s| s.as_array())
+        .ok_or_else(|| miette::miette!("enum `{name}` missing 'symbols'"))?
+        .iter()
+        .map(|s| {
+            s.as_str()
+                .map(str::to_string)
+                .ok_or_else(|| miette::miette!("symbol of enum `{name}` is not a string: {s}"))
+        })
+        .collect::<Result<Vec<_>>>()?;
     let default = obj
         .get("default")
         .and_then(|d| d.as_str())
-- 
2.43.0


From 4ac105b44c3608e43b2fb4d9288c3c59f2f8bea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:53 +0000
Subject: [PATCH 24/33] fix: refuse imported protocols and messages without
 their required parts

A protocol without a name (say, a schema imported as a protocol) contributed
nothing, and missing or misshapen requests, responses, errors and types were
taken for empty ones.
---
 src/import.rs | 50 ++++++++++++++++++++++++++++----------------------
 1 file changed, 28 insertions(+), 22 deletions(-)

diff --git a/src/import.rs b/src/import.rs
index 7789a64..6c2102a 100644
--- a/src/import.rs
+++ b/src/import.rs
@@ -314,10 +314,12 @@ pub fn import_protocol(
 
     // The name qualification rules of schemas apply to protocols as well: the
     // namespace of a dotted name wins over the "namespace" attribute.
-    let default_namespace = json
+    let protocol_name = json
         .get("protocol")
         .and_then(|n| n.as_str())
-        .and_then(|n| split_full_name(n).1)
+        .ok_or_else(|| miette::miette!("protocol `{}` missing 'protocol'", path.display()))?;
+    let default_namespace = split_full_name(protocol_name)
+        .1
         .or_else(|| json.get("namespace").and_then(|n| n.as_str()));
     let mut messages = HashMap::new();
 
@@ -325,7 +327,10 @@ pub fn import_protocol(
     // flattened so that nested named types (records, enums, fixed) within
     // record fields, union branches, etc. are promoted to separate top-level
     // entries in the registry and replaced with Reference nodes.
-    if let Some(types) = json.get("types").and_then(|t| t.as_array()) {
+    if let Some(types) = json.get("types") {
+        let types = types.as_array().ok_or_else(|| {
+            miette::miette!("'types' in protocol `{}` must be an array", path.display())
+        })?;
         for (i, type_json) in types.iter().enumerate() {
             let schema = json_to_schema(type_json, default_namespace).map_err(|e| {
                 miette::miette!(
@@ -855,29 +860,30 @@ fn json_to_message(json: &Value, default_namespace: Option<&str>) -> Result<Mess
         .and_then(|o| o.as_bool())
         .unwrap_or(false);
 
-    let request = if let Some(Value::Array(params)) = obj.get("request") {
-        params
-            .iter()
-            .enumerate()
-            .map(|(i, p)| {
-                json_to_field(p, default_namespace)
-                    .map_err(|e| miette::miette!("parse request parameter at index {i}: {e}"))
-            })
-            .collect::<Result<Vec<_>>>()?
-    } else {
-        vec![]
-    };
+    let request = obj
+        .get("request")
+        .and_then(|r| r.as_array())
+        .ok_or_else(|| miette::miette!("message missing 'request'"))?
+        .iter()
+        .enumerate()
+        .map(|(i, p)| {
+            json_to_field(p, default_namespace)
+                .map_err(|e| miette::miette!("parse request parameter at index {i}: {e}"))
+        })
+        .collect::<Result<Vec<_>>>()?;
 
-    let response = if let Some(resp) = obj.get("response") {
-        json_to_schema(resp, default_namespace)
-            .map_err(|e| miette::miette!("parse response type for message: {e}"))?
-    } else {
-        AvroSchema::Null
+    let response = match obj.get("response") {
+        Some(resp) => json_to_schema(resp, default_namespace)
+            .map_err(|e| miette::miette!("parse response type for message: {e}"))?,
+        None if one_way => AvroSchema::Null,
+        None => miette::bail!("message missing 'response'"),
     };
 
-    let errors = if let Some(Value::Array(errs)) = obj.get("errors") {
+    let errors = if let Some(errs) = obj.get("errors") {
         Some(
-            errs.iter()
+            errs.as_array()
+                .ok_or_else(|| miette::miette!("message 'errors' must be an array"))?
+                .iter()
                 .enumerate()
                 .map(|(i, e)| {
                     json_to_schema(e, default_namespace).map_err(|e| {
-- 
2.43.0


From bc1e00b1304b0dfa885f3d6cfe65241d59255a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:29 +0000
Subject: [PATCH 25/33] fix: refuse imported types whose names are not valid

They were silently left out of the result.
---
 src/import.rs | 96 +++++++++++++++++++++++++++++++--------------------
 1 file changed, 58 insertions(+), 38 deletions(-)

diff --git a/src/import.rs b/src/import.rs
index 6c2102a..dfe83c6 100644
--- a/src/import.rs
+++ b/src/import.rs
@@ -282,15 +282,20 @@ fn flatten_schema_inner(schema: AvroSchema, collected: &mut Vec<AvroSchema>) ->
 /// registers nested types as it encounters them.
 ///
 /// Duplicate registrations are silently ignored (the first definition wins),
-/// matching Java's behavior for imports.
+/// matching Java's behavior for imports. Types with an invalid name are an error.
 ///
 /// Returns the flattened schema, which refers to the registered types by name.
-fn flatten_and_register(schema: AvroSchema, registry: &mut SchemaRegistry) -> AvroSchema {
+fn flatten_and_register(schema: AvroSchema, registry: &mut SchemaRegistry) -> Result<AvroSchema> {
     let (types, top_level) = flatten_schema(schema);
     for t in types {
-        let _ = registry.register(t);
+        let known = t
+            .full_name()
+            .is_some_and(|name| registry.lookup(&name).is_some());
+        if !known {
+            registry.register(t).map_err(|e| miette::miette!("{e}"))?;
+        }
     }
-    top_level
+    Ok(top_level)
 }
 
 // ==============================================================================
@@ -332,44 +337,28 @@ pub fn import_protocol(
             miette::miette!("'types' in protocol `{}` must be an array", path.display())
         })?;
         for (i, type_json) in types.iter().enumerate() {
-            let schema = json_to_schema(type_json, default_namespace).map_err(|e| {
-                miette::miette!(
-                    "parse type at index {i} in protocol `{}`: {e}",
-                    path.display()
-                )
-            })?;
-            flatten_and_register(schema, registry);
+            json_to_schema(type_json, default_namespace)
+                .and_then(|schema| flatten_and_register(schema, registry))
+                .map_err(|e| {
+                    miette::miette!(
+                        "parse type at index {i} in protocol `{}`: {e}",
+                        path.display()
+                    )
+                })?;
         }
     }
 
     // Extract messages.
     if let Some(msgs) = json.get("messages").and_then(|m| m.as_object()) {
         for (name, msg_json) in msgs {
-            let mut message = json_to_message(msg_json, default_namespace).map_err(|e| {
-                miette::miette!(
-                    "parse message `{name}` in protocol `{}`: {e}",
-                    path.display()
-                )
-            })?;
-
-            // A message may define named types where it uses them; they are
-            // types of the protocol like those in its `types` array.
-            message.request = message
-                .request
-                .into_iter()
-                .map(|field| crate::model::schema::Field {
-                    schema: flatten_and_register(field.schema, registry),
-                    ..field
-                })
-                .collect();
-            message.response = flatten_and_register(message.response, registry);
-            message.errors = message.errors.map(|errors| {
-                errors
-                    .into_iter()
-                    .map(|e| flatten_and_register(e, registry))
-                    .collect()
-            });
-
+            let message = json_to_message(msg_json, default_namespace)
+                .and_then(|message| register_message_types(message, registry))
+                .map_err(|e| {
+                    miette::miette!(
+                        "parse message `{name}` in protocol `{}`: {e}",
+                        path.display()
+                    )
+                })?;
             messages.insert(name.clone(), message);
         }
     }
@@ -377,6 +366,37 @@ pub fn import_protocol(
     Ok(messages)
 }
 
+/// Register the named types that a message defines where it uses them; they are
+/// types of the protocol like those in its `types` array.
+fn register_message_types(message: Message, registry: &mut SchemaRegistry) -> Result<Message> {
+    let request = message
+        .request
+        .into_iter()
+        .map(|field| {
+            Ok(crate::model::schema::Field {
+                schema: flatten_and_register(field.schema, registry)?,
+                ..field
+            })
+        })
+        .collect::<Result<Vec<_>>>()?;
+    let response = flatten_and_register(message.response, registry)?;
+    let errors = match message.errors {
+        Some(errors) => Some(
+            errors
+                .into_iter()
+                .map(|e| flatten_and_register(e, registry))
+                .collect::<Result<Vec<_>>>()?,
+        ),
+        None => None,
+    };
+    Ok(Message {
+        request,
+        response,
+        errors,
+        ..message
+    })
+}
+
 // ==============================================================================
 // JSON Schema Import (.avsc)
 // ==============================================================================
@@ -394,9 +414,9 @@ pub fn import_schema(path: &Path, registry: &mut SchemaRegistry) -> Result<()> {
     let json: Value = parse_json_with_comments(&content)
         .map_err(|e| miette::miette!("invalid JSON in {}: {e}", path.display()))?;
 
-    let schema = json_to_schema(&json, None)
+    json_to_schema(&json, None)
+        .and_then(|schema| flatten_and_register(schema, registry))
         .map_err(|e| miette::miette!("parse schema from `{}`: {e}", path.display()))?;
-    flatten_and_register(schema, registry);
 
     Ok(())
 }
-- 
2.43.0


From 0c97f864cfe7896adcfbf306beb1598fd41883c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:00 +0000
Subject: [PATCH 26/33] fix: do not panic when reporting a problem far into a
 long line

miette pads the underline of a span with a formatting width, which panics
above u16::MAX, so a warning or an error after column 65535 of a line ended
the command with a panic. Show the bare span there.
---
 src/error.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/error.rs b/src/error.rs
index fdbe248..1639367 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -43,6 +43,21 @@ impl SourceCode for SpanWithSource {
         context_lines_before: usize,
         context_lines_after: usize,
     ) -> Result<Box<dyn miette::SpanContents<'a> + 'a>, MietteError> {
+        // miette pads the underline with a formatting width, which panics above
+        // `u16::MAX`, and a byte takes up to four columns (a tab). Show the bare
+        // span when it stands that far into its line.
+        let before_span = &self.content.as_bytes()[..span.offset().min(self.content.len())];
+        let column = before_span
+            .iter()
+            .rev()
+            .take_while(|&&b| b != b'\n')
+            .count();
+        let (context_lines_before, context_lines_after) = if column >= u16::MAX as usize / 4 {
+            (0, 0)
+        } else {
+            (context_lines_before, context_lines_after)
+        };
+
         let inner = SourceCode::read_span(
             &self.content,
             span,
-- 
2.43.0


From 777dbbe2b52402d8c5def3f6441d72a745cca62a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:23 +0000
Subject: [PATCH 27/33] fix: explain syntax errors by the tokens around them,
 not by raw text

The hints for empty unions, empty type parameters, fixed sizes, missing
names, trailing commas, misspelled keywords and unclosed braces looked at
the source text before the error. Comments, string literals, names that end
like a keyword, and an enum anywhere earlier in the file made them describe
constructs that are not there.
---
 src/reader.rs | 372 +++++++++++++++++++-------------------------------
 1 file changed, 143 insertions(+), 229 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index bada77c..4324354 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -1208,27 +1208,22 @@ fn refine_errors_with_source(errors: &[SyntaxError], source: &str) -> Option<Vec
 /// Detects `union {}` by checking whether `union` followed by `{` appears
 /// just before the error offset, and the error message mentions `}`.
 fn detect_empty_union(error: &SyntaxError, source: &str) -> Option<SyntaxError> {
-    // The first error in the cascade points at `}` in `union {}`.
-    let before = &source[..error.offset];
-
     // Check if the error message mentions `}` as the unexpected token.
-    let mentions_close_brace = error.message.contains("`}`");
-    if !mentions_close_brace {
+    if !error.message.contains("`}`") {
         return None;
     }
 
-    // Look backwards for `union` followed by `{` with only whitespace between.
-    let trimmed = before.trim_end();
-    if !trimmed.ends_with('{') {
+    // The first error in the cascade points at `}` in `union {}`.
+    let (before, _) = tokens_up_to(source, error.offset)?;
+    let [.., union_token, brace] = before.as_slice() else {
         return None;
-    }
-    let before_brace = trimmed[..trimmed.len() - 1].trim_end();
-    if !before_brace.ends_with("union") {
+    };
+    if union_token.text != "union" || brace.text != "{" {
         return None;
     }
 
-    // Find the offset of the `union` keyword to point the error there.
-    let union_offset = before_brace.len() - "union".len();
+    // Point the error at the `union` keyword.
+    let union_offset = union_token.offset;
     // Span covers `union {}`.
     let span_len = (error.offset + error.length) - union_offset;
 
@@ -1256,25 +1251,22 @@ fn detect_empty_type_parameter(error: &SyntaxError, source: &str) -> Option<Synt
         return None;
     }
 
-    let before = source[..error.offset].trim_end();
-
-    // Check if the previous non-whitespace character is `<`.
-    if !before.ends_with('<') {
+    // Look for `map` or `array` and `<` before the `>`.
+    let (before, _) = tokens_up_to(source, error.offset)?;
+    let [.., keyword_token, angle] = before.as_slice() else {
         return None;
-    }
-
-    // Look for `map` or `array` keyword before the `<`.
-    let before_angle = before[..before.len() - 1].trim_end();
-    let keyword = if before_angle.ends_with("map") {
-        "map"
-    } else if before_angle.ends_with("array") {
-        "array"
-    } else {
+    };
+    if angle.text != "<" {
         return None;
+    }
+    let keyword = match keyword_token.text {
+        "map" => "map",
+        "array" => "array",
+        _ => return None,
     };
 
-    // Find the offset of the keyword to point the error there.
-    let keyword_offset = before_angle.len() - keyword.len();
+    // Point the error at the keyword.
+    let keyword_offset = keyword_token.offset;
 
     // Span covers `map<>` or `array<>`.
     let span_len = (error.offset + error.length) - keyword_offset;
@@ -1324,49 +1316,13 @@ fn detect_missing_close_brace_before_declaration(
         return None;
     }
 
-    // Look backwards from the `{` to find a declaration keyword.
-    let before = source[..error.offset].trim_end();
-
-    // Skip the name (e.g., `Bar` in `record Bar {`).
-    let name_end = before.len();
-    let name_start = before
-        .bytes()
-        .rposition(|b| !b.is_ascii_alphanumeric() && b != b'_' && b != b'`')
-        .map(|p| p + 1)
-        .unwrap_or(0);
-
-    if name_start >= name_end {
-        return None;
-    }
-
-    let name_text = &before[name_start..name_end];
-
-    // Check if the "name" is actually a declaration keyword (for cases
-    // like `enum {` without a name, though those are rare here).
-    let is_decl_keyword = matches!(name_text, "record" | "enum" | "error" | "fixed");
-
-    // If it's not a keyword, check if the word before the name is.
-    let keyword_before_name = if !is_decl_keyword {
-        let before_name = before[..name_start].trim_end();
-        let kw_end = before_name.len();
-        let kw_start = before_name
-            .bytes()
-            .rposition(|b| !b.is_ascii_alphanumeric() && b != b'_')
-            .map(|p| p + 1)
-            .unwrap_or(0);
-        if kw_start < kw_end {
-            matches!(
-                &before_name[kw_start..kw_end],
-                "record" | "enum" | "error" | "fixed"
-            )
-        } else {
-            false
-        }
-    } else {
-        false
-    };
-
-    if !is_decl_keyword && !keyword_before_name {
+    // Look backwards from the `{` to find a declaration keyword: either the
+    // token before it (for cases like `enum {` without a name, though those
+    // are rare here), or the one before the name (`Bar` in `record Bar {`).
+    let (before, _) = tokens_up_to(source, error.offset)?;
+    let is_decl_keyword =
+        |token: &SourceToken| matches!(token.text, "record" | "enum" | "error" | "fixed");
+    if !before.iter().rev().take(2).any(is_decl_keyword) {
         return None;
     }
 
@@ -1382,8 +1338,7 @@ fn detect_missing_close_brace_before_declaration(
     // The last unclosed `{` is the most likely culprit (the record that
     // was never closed).
     let unmatched_pos = *brace_stack.last().expect("non-empty stack");
-    let before_unmatched = source[..unmatched_pos].trim_end();
-    let construct = identify_construct(before_unmatched);
+    let construct = identify_construct(&source[..unmatched_pos]);
 
     let line_prefix = extract_line_prefix(&error.message);
 
@@ -1414,44 +1369,37 @@ fn detect_fixed_non_integer(error: &SyntaxError, source: &str) -> Option<SyntaxE
         return None;
     }
 
-    let before = &source[..error.offset];
-
     // Look for the pattern `fixed <Name>(` before the `)`. We search backwards
     // for `(`, then check if `fixed <Name>` precedes it.
-    let paren_pos = before.rfind('(')?;
-    let before_paren = before[..paren_pos].trim_end();
-
-    // Extract the name (identifier before the parenthesis).
-    let name_end = before_paren.len();
-    let name_start = before_paren
-        .bytes()
-        .rposition(|b| !b.is_ascii_alphanumeric() && b != b'_')
-        .map(|p| p + 1)
-        .unwrap_or(0);
-    if name_start >= name_end {
+    let (before, _) = tokens_up_to(source, error.offset)?;
+    let paren = before
+        .iter()
+        .rposition(|token| matches!(token.text, "(" | ")"))
+        .filter(|&paren| before[paren].text == "(")?;
+    let (before_paren, size) = before.split_at(paren);
+    let [.., fixed, name] = before_paren else {
         return None;
-    }
-    let name = &before_paren[name_start..name_end];
-
-    // Check that `fixed` precedes the name.
-    let before_name = before_paren[..name_start].trim_end();
-    if !before_name.ends_with("fixed") {
+    };
+    if fixed.text != "fixed" {
         return None;
     }
+    let name = name.text;
 
-    // Extract the non-integer content between the parens.
-    let after_paren = &source[paren_pos + 1..error.offset];
-    let bad_size = after_paren.trim();
+    // Point the error at the non-integer content between the parens.
+    let (first, last) = match size {
+        [_, first, .., last] => (first, last),
+        [_, only] => (only, only),
+        _ => return None,
+    };
+    let bad_offset = first.offset;
+    let bad_len = last.end() - first.offset;
+    let bad_size = &source[first.offset..last.end()];
 
     let line_prefix = extract_line_prefix(&error.message);
 
-    // Point the error at the content between parens.
-    let bad_offset = paren_pos + 1;
-    let bad_len = error.offset - paren_pos - 1;
-
     Some(SyntaxError {
         offset: bad_offset,
-        length: if bad_len > 0 { bad_len } else { 1 },
+        length: bad_len,
         message: format!(
             "{line_prefix}fixed type requires an integer size -- \
              use `fixed {name}(<integer>)`, e.g., `fixed {name}(16)`"
@@ -1475,21 +1423,9 @@ fn detect_missing_name(error: &SyntaxError, source: &str) -> Option<SyntaxError>
         return None;
     }
 
-    let before = source[..error.offset].trim_end();
-
-    // Extract the word immediately before `{`.
-    let kw_end = before.len();
-    let kw_start = before
-        .bytes()
-        .rposition(|b| !b.is_ascii_alphanumeric() && b != b'_')
-        .map(|p| p + 1)
-        .unwrap_or(0);
-
-    if kw_start >= kw_end {
-        return None;
-    }
-
-    let keyword = &before[kw_start..kw_end];
+    // The word immediately before `{`.
+    let (before, _) = tokens_up_to(source, error.offset)?;
+    let keyword = before.last()?.text;
 
     // Only trigger for declaration keywords that require a name.
     let construct = match keyword {
@@ -1530,46 +1466,28 @@ fn detect_trailing_comma_in_enum(error: &SyntaxError, source: &str) -> Option<Sy
         return None;
     }
 
-    let before = source[..error.offset].trim_end();
-
-    // Check if the previous non-whitespace character is `,`.
-    if !before.ends_with(',') {
+    // Check if the previous token is `,`.
+    let (before, _) = tokens_up_to(source, error.offset)?;
+    let (comma, before_comma) = before.split_last()?;
+    if comma.text != "," {
         return None;
     }
 
-    // Verify we're inside an enum by searching backwards for `enum`.
-    // We look for `enum <Name> {` before the comma.
-    let before_comma = &before[..before.len() - 1];
-    // Check if any `enum` keyword appears earlier in the source, with a `{`
-    // between it and the current position.
-    let has_enum = source[..error.offset]
-        .rmatch_indices("enum")
-        .any(|(pos, _)| {
-            // Make sure `enum` is followed by a name and `{`.
-            let after_enum = &source[pos + 4..error.offset];
-            after_enum.contains('{')
-        });
-
-    if !has_enum {
+    // Verify we're inside an enum, and not in a union or a JSON value: the
+    // innermost `{` that is still open has to be that of the enum.
+    let enum_brace = *unclosed_braces(&source[..error.offset]).last()?;
+    if identify_construct(&source[..enum_brace]) != Some("enum") {
         return None;
     }
 
     // Find the last enum symbol before the trailing comma.
-    let before_comma_trimmed = before_comma.trim_end();
-    let sym_end = before_comma_trimmed.len();
-    let sym_start = before_comma_trimmed
-        .bytes()
-        .rposition(|b| !b.is_ascii_alphanumeric() && b != b'_')
-        .map(|p| p + 1)
-        .unwrap_or(0);
-    let last_symbol = if sym_start < sym_end {
-        &before_comma_trimmed[sym_start..sym_end]
-    } else {
-        ""
-    };
+    let last_symbol = before_comma
+        .last()
+        .filter(|token| !matches!(token.text, "{" | ","))
+        .map_or("", |token| token.text);
 
     // Point the error at the trailing comma.
-    let comma_offset = before.len() - 1;
+    let comma_offset = comma.offset;
     let line_prefix = extract_line_prefix(&error.message);
 
     let hint = if last_symbol.is_empty() {
@@ -1596,46 +1514,28 @@ fn detect_trailing_comma_in_enum(error: &SyntaxError, source: &str) -> Option<Sy
 /// produce cascading errors. The first error typically points at the `{`
 /// or the token after the misspelled keyword.
 fn detect_misspelled_keyword(error: &SyntaxError, source: &str) -> Option<SyntaxError> {
-    let before = &source[..error.offset];
-
-    // Walk backwards from the error, skipping whitespace and then the
-    // identifier before the error (which ANTLR consumed as a name like `Foo`
-    // in `recrod Foo {`).
-    let trimmed = before.trim_end();
-
-    // Skip the identifier that ANTLR consumed as the name.
-    let name_end = trimmed.len();
-    let name_start = trimmed
-        .bytes()
-        .rposition(|b| !b.is_ascii_alphanumeric() && b != b'_' && b != b'`')
-        .map(|p| p + 1)
-        .unwrap_or(0);
-
-    if name_start >= name_end {
+    // Walk backwards from the error, skipping the identifier that ANTLR
+    // consumed as a name (like `Foo` in `recrod Foo {`), to the potential
+    // misspelled keyword.
+    let mut tokens = source_tokens(source);
+    tokens.retain(|token| token.offset < error.offset);
+    let [.., candidate_token, name] = tokens.as_slice() else {
         return None;
-    }
-
-    let before_name = trimmed[..name_start].trim_end();
-
-    // Now extract the potential misspelled keyword.
-    let kw_end = before_name.len();
-    let kw_start = before_name
-        .bytes()
-        .rposition(|b| !b.is_ascii_alphanumeric() && b != b'_')
-        .map(|p| p + 1)
-        .unwrap_or(0);
-
-    if kw_start >= kw_end {
+    };
+    let candidate = candidate_token.text;
+    if !name
+        .text
+        .starts_with(|c: char| c.is_alphanumeric() || c == '_' || c == '`')
+        || !looks_like_bare_identifier(candidate)
+    {
         return None;
     }
 
-    let candidate = &before_name[kw_start..kw_end];
-
     // Check if the candidate looks like a misspelled keyword.
     if let Some(suggestion) = suggest_keyword(candidate) {
         let line_prefix = extract_line_prefix(&error.message);
         return Some(SyntaxError {
-            offset: kw_start,
+            offset: candidate_token.offset,
             length: candidate.len(),
             message: format!(
                 "{line_prefix}unrecognized `{candidate}` -- did you mean `{suggestion}`?"
@@ -1668,8 +1568,7 @@ fn detect_unclosed_brace(error: &SyntaxError, source: &str) -> Option<SyntaxErro
 
     // Try to identify what construct the unmatched brace belongs to by
     // looking at the source text before it.
-    let before = source[..unmatched_pos].trim_end();
-    let construct = identify_construct(before);
+    let construct = identify_construct(&source[..unmatched_pos]);
 
     let line_prefix = extract_line_prefix(&error.message);
     let msg = match construct {
@@ -1692,77 +1591,92 @@ fn detect_unclosed_brace(error: &SyntaxError, source: &str) -> Option<SyntaxErro
     })
 }
 
-/// Byte offsets of the `{` in `source` that have no matching `}`, outermost first.
-/// Braces inside string literals and comments don't count, so we go by the
-/// lexer's tokens.
-fn unclosed_braces(source: &str) -> Vec<usize> {
-    use crate::generated::idllexer::{LBrace, RBrace};
+/// A token the parser sees, with its place in the source text.
+#[derive(Clone, Copy)]
+struct SourceToken<'a> {
+    offset: usize,
+    text: &'a str,
+}
+
+impl SourceToken<'_> {
+    fn end(&self) -> usize {
+        self.offset + self.text.len()
+    }
+}
 
+/// The tokens of `source` that the parser sees, in order. Comments are not
+/// among them, and string literals are one token each, so that what they
+/// contain is never taken for IDL syntax.
+fn source_tokens(source: &str) -> Vec<SourceToken<'_>> {
     let mut lexer = IdlLexer::new(InputStream::new(source));
     lexer.remove_error_listeners();
-    let mut brace_stack = Vec::new();
+    let mut tokens = Vec::new();
     loop {
         let token = lexer.next_token();
-        match token.get_token_type() {
-            LBrace => brace_stack.push(token.get_start() as usize),
-            RBrace => {
+        if token.get_token_type() == antlr4rust::token::TOKEN_EOF {
+            return tokens;
+        }
+        if token.get_channel() != antlr4rust::token::TOKEN_DEFAULT_CHANNEL {
+            continue;
+        }
+        let offset = token.get_start() as usize;
+        if let Some(text) = source.get(offset..(token.get_stop() + 1) as usize) {
+            tokens.push(SourceToken { offset, text });
+        }
+    }
+}
+
+/// The tokens of `source` in front of `offset`, and the token that starts there.
+fn tokens_up_to(source: &str, offset: usize) -> Option<(Vec<SourceToken<'_>>, SourceToken<'_>)> {
+    let mut tokens = source_tokens(source);
+    let index = tokens.iter().position(|t| t.offset == offset)?;
+    tokens.truncate(index + 1);
+    let offending = tokens.pop()?;
+    Some((tokens, offending))
+}
+
+/// Byte offsets of the `{` in `source` that have no matching `}`, outermost first.
+/// Braces inside string literals and comments don't count, so we go by the
+/// lexer's tokens.
+fn unclosed_braces(source: &str) -> Vec<usize> {
+    let mut brace_stack = Vec::new();
+    for token in source_tokens(source) {
+        match token.text {
+            "{" => brace_stack.push(token.offset),
+            "}" => {
                 brace_stack.pop();
             }
-            antlr4rust::token::TOKEN_EOF => return brace_stack,
             _ => {}
         }
     }
+    brace_stack
 }
 
 /// Identifies the construct type (record, protocol, enum, etc.) by examining
 /// the source text immediately before an opening `{`.
 fn identify_construct(before_brace: &str) -> Option<&'static str> {
-    // Walk backwards, skipping the name identifier and any annotations,
-    // to find the keyword.
-    let trimmed = before_brace.trim_end();
-
-    // Skip the name (e.g., `User` in `record User {`).
-    let name_end = trimmed.len();
-    let name_start = trimmed
-        .bytes()
-        .rposition(|b| !b.is_ascii_alphanumeric() && b != b'_' && b != b'`')
-        .map(|p| p + 1)
-        .unwrap_or(0);
-
-    if name_start >= name_end {
-        return None;
-    }
-
-    let name_text = &trimmed[name_start..name_end];
-
-    // Check if the "name" is actually a keyword (e.g., `union {` has no name).
-    match name_text {
-        "protocol" => return Some("protocol"),
-        "record" => return Some("record"),
-        "error" => return Some("error record"),
-        "enum" => return Some("enum"),
-        "union" => return Some("union"),
+    let tokens = source_tokens(before_brace);
+    let mut last_two = tokens.iter().rev().map(|token| token.text);
+    let name = last_two.next()?;
+
+    // Look at the keyword before the name (e.g., `User` in `record User {`).
+    // This comes first because names can look like keywords.
+    match last_two.next() {
+        Some("protocol") => return Some("protocol"),
+        Some("record") => return Some("record"),
+        Some("error") => return Some("error record"),
+        Some("enum") => return Some("enum"),
         _ => {}
     }
 
-    // Otherwise, look at the keyword before the name.
-    let before_name = trimmed[..name_start].trim_end();
-    let kw_end = before_name.len();
-    let kw_start = before_name
-        .bytes()
-        .rposition(|b| !b.is_ascii_alphanumeric() && b != b'_')
-        .map(|p| p + 1)
-        .unwrap_or(0);
-
-    if kw_start >= kw_end {
-        return None;
-    }
-
-    match &before_name[kw_start..kw_end] {
+    // Otherwise, check if the "name" is actually a keyword (e.g., `union {`
+    // has no name).
+    match name {
         "protocol" => Some("protocol"),
         "record" => Some("record"),
         "error" => Some("error record"),
         "enum" => Some("enum"),
+        "union" => Some("union"),
         _ => None,
     }
 }
-- 
2.43.0


From 4707652e2b393f05fa17812263e1a6717dec3330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:30 +0000
Subject: [PATCH 28/33] fix: take annotation names and misspelled words in
 syntax errors from the tokens

They were recovered from the text into which ANTLR runs the tokens
together, which named annotations and words that are not in the file:
`@fingerpr` for `@fingerprint @b(1)`, `@example` for an address inside an
annotation's string, `enumE` for `enum E`, and a misplaced `@` before
`record` for `@recording`.
---
 src/reader.rs | 178 ++++++++++++++++++++++++++++++++++----------------
 1 file changed, 121 insertions(+), 57 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 4324354..ed169f9 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -20,7 +20,7 @@
 // plain recursive functions that return values. This is simpler and more
 // idiomatic Rust.
 
-use std::cell::RefCell;
+use std::cell::{OnceCell, RefCell};
 use std::collections::HashSet;
 use std::rc::Rc;
 
@@ -326,24 +326,9 @@ fn enrich_antlr_error(msg: &str) -> Option<EnrichedError> {
         // tokens as parts of the annotation name. Produce a more helpful
         // error explaining that the `@` is out of place.
         if let Some(kw) = annotation_name_starts_with_keyword(anno_name) {
-            return Some(EnrichedError {
-                message: format!(
-                    "unexpected `@` before `{kw}` -- \
-                     did you mean to add an annotation? \
-                     annotations use `@name(\"value\")` syntax"
-                ),
-                label: Some(format!("unexpected `@` before `{kw}`")),
-                help: None,
-            });
+            return Some(misplaced_at_error(kw));
         }
-        return Some(EnrichedError {
-            message: format!(
-                "annotation `@{anno_name}` is missing its value -- \
-                     use `@{anno_name}(\"value\")` syntax"
-            ),
-            label: None,
-            help: None,
-        });
+        return Some(missing_annotation_value_error(anno_name));
     }
 
     // Pattern 2: "no viable alternative at input 'import\"...\"'"
@@ -355,13 +340,7 @@ fn enrich_antlr_error(msg: &str) -> Option<EnrichedError> {
     if let Some(input) = extract_no_viable_input(msg)
         && input.starts_with("import\"")
     {
-        return Some(EnrichedError {
-            message: "import statement missing kind specifier -- \
-                      use `import idl`, `import protocol`, or `import schema`"
-                .to_string(),
-            label: Some("missing import kind".to_string()),
-            help: None,
-        });
+        return Some(missing_import_kind_error());
     }
 
     // Pattern 3: "no viable alternative at input '...misspelled_keyword'"
@@ -377,13 +356,7 @@ fn enrich_antlr_error(msg: &str) -> Option<EnrichedError> {
         if let Some(last_word) = last_word
             && let Some(suggestion) = suggest_keyword(last_word)
         {
-            return Some(EnrichedError {
-                message: format!(
-                    "unrecognized token `{last_word}` -- did you mean `{suggestion}`?"
-                ),
-                label: Some(format!("did you mean `{suggestion}`?")),
-                help: None,
-            });
+            return Some(misspelled_token_error(last_word, suggestion));
         }
     }
 
@@ -417,6 +390,78 @@ fn enrich_antlr_error(msg: &str) -> Option<EnrichedError> {
     None
 }
 
+/// Explains a "no viable alternative" error by the tokens in front of it. The
+/// message runs its tokens together, so it alone doesn't tell where one ends
+/// and the next begins. Returns `None` if the tokens show no known pattern.
+fn explain_no_viable_alternative(
+    before: &[SourceToken],
+    offending: &SourceToken,
+) -> Option<EnrichedError> {
+    if let [.., at, name] = before
+        && at.text == "@"
+        && offending.text != "("
+    {
+        return Some(if DECLARATION_KEYWORDS.contains(&name.text) {
+            misplaced_at_error(name.text)
+        } else {
+            missing_annotation_value_error(name.text)
+        });
+    }
+
+    if before.last().is_some_and(|token| token.text == "import") && offending.text.starts_with('"')
+    {
+        return Some(missing_import_kind_error());
+    }
+
+    if looks_like_bare_identifier(offending.text) {
+        let suggestion = suggest_keyword(offending.text)?;
+        return Some(misspelled_token_error(offending.text, suggestion));
+    }
+
+    None
+}
+
+fn misplaced_at_error(keyword: &str) -> EnrichedError {
+    EnrichedError {
+        message: format!(
+            "unexpected `@` before `{keyword}` -- \
+             did you mean to add an annotation? \
+             annotations use `@name(\"value\")` syntax"
+        ),
+        label: Some(format!("unexpected `@` before `{keyword}`")),
+        help: None,
+    }
+}
+
+fn missing_annotation_value_error(name: &str) -> EnrichedError {
+    EnrichedError {
+        message: format!(
+            "annotation `@{name}` is missing its value -- \
+             use `@{name}(\"value\")` syntax"
+        ),
+        label: None,
+        help: None,
+    }
+}
+
+fn missing_import_kind_error() -> EnrichedError {
+    EnrichedError {
+        message: "import statement missing kind specifier -- \
+                  use `import idl`, `import protocol`, or `import schema`"
+            .to_string(),
+        label: Some("missing import kind".to_string()),
+        help: None,
+    }
+}
+
+fn misspelled_token_error(token: &str, suggestion: &str) -> EnrichedError {
+    EnrichedError {
+        message: format!("unrecognized token `{token}` -- did you mean `{suggestion}`?"),
+        label: Some(format!("did you mean `{suggestion}`?")),
+        help: None,
+    }
+}
+
 // ==========================================================================
 // Unterminated String Literal Detection
 // ==========================================================================
@@ -1731,15 +1776,35 @@ fn line_col_to_byte_offset(source: &str, line: isize, column: isize) -> usize {
 /// instead of printing them to stderr. This lets us detect parse errors after
 /// `parser.idlFile()` returns and fail with a proper error.
 ///
-/// The optional `source` field holds the original input text, enabling the
-/// listener to compute byte offsets from ANTLR's (line, column) when no
-/// offending token is available (lexer errors).
+/// The `source` field holds the original input text, enabling the listener to
+/// compute byte offsets from ANTLR's (line, column) when no offending token is
+/// available (lexer errors), and to look at the tokens in front of an error.
 struct CollectingErrorListener {
     errors: Rc<RefCell<Vec<SyntaxError>>>,
-    /// Original source text for line/column-to-byte-offset conversion.
-    /// `None` for parser errors where the offending token always provides
-    /// byte offsets directly.
-    source: Option<&'static str>,
+    /// Original source text.
+    source: &'static str,
+    /// The tokens of `source`, once they are needed.
+    tokens: OnceCell<Vec<SourceToken<'static>>>,
+}
+
+impl CollectingErrorListener {
+    fn new(errors: &Rc<RefCell<Vec<SyntaxError>>>, source: &'static str) -> Self {
+        CollectingErrorListener {
+            errors: Rc::clone(errors),
+            source,
+            tokens: OnceCell::new(),
+        }
+    }
+
+    /// The tokens in front of the one at `offset`, and that one.
+    fn tokens_up_to(
+        &self,
+        offset: usize,
+    ) -> Option<(&[SourceToken<'static>], SourceToken<'static>)> {
+        let tokens = self.tokens.get_or_init(|| source_tokens(self.source));
+        let index = tokens.binary_search_by_key(&offset, |t| t.offset).ok()?;
+        Some((&tokens[..index], tokens[index]))
+    }
 }
 
 impl<'a, T: Recognizer<'a>> ErrorListener<'a, T> for CollectingErrorListener {
@@ -1771,18 +1836,22 @@ impl<'a, T: Recognizer<'a>> ErrorListener<'a, T> for CollectingErrorListener {
             .unwrap_or_else(|| {
                 // Lexer errors have no offending token. Fall back to computing
                 // the byte offset from (line, column) using the source text.
-                if let Some(src) = self.source {
-                    let offset = line_col_to_byte_offset(src, line, column);
-                    let length = src[offset..].chars().next().map_or(1, char::len_utf8);
-                    (offset, length)
-                } else {
-                    (0, 0)
-                }
+                let offset = line_col_to_byte_offset(self.source, line, column);
+                let length = self.source[offset..]
+                    .chars()
+                    .next()
+                    .map_or(1, char::len_utf8);
+                (offset, length)
             });
 
         // Try to enrich the raw ANTLR message with a more user-friendly
         // explanation. Fall back to the original if no pattern matches.
-        let enriched = enrich_antlr_error(msg);
+        let enriched = if msg.starts_with("no viable alternative") {
+            self.tokens_up_to(offset)
+                .and_then(|(before, token)| explain_no_viable_alternative(before, &token))
+        } else {
+            enrich_antlr_error(msg)
+        };
 
         let (display_msg, label, help) = match enriched {
             Some(e) => (e.message, e.label, e.help),
@@ -1954,10 +2023,7 @@ pub fn parse_idl_named(
     // the lexer — it just lets ConsoleErrorListener print to stderr.)
     let lexer_errors: Rc<RefCell<Vec<SyntaxError>>> = Rc::new(RefCell::new(Vec::new()));
     lexer.remove_error_listeners();
-    lexer.add_error_listener(Box::new(CollectingErrorListener {
-        errors: Rc::clone(&lexer_errors),
-        source: Some(input),
-    }));
+    lexer.add_error_listener(Box::new(CollectingErrorListener::new(&lexer_errors, input)));
 
     let token_stream = CommonTokenStream::new(lexer);
     let mut parser = IdlParser::new(token_stream);
@@ -1973,12 +2039,10 @@ pub fn parse_idl_named(
     // produce a usable parse tree, but we'll fail after parsing completes.
     let syntax_errors: Rc<RefCell<Vec<SyntaxError>>> = Rc::new(RefCell::new(Vec::new()));
     parser.remove_error_listeners();
-    // Parser errors always have an offending token with byte offsets, so no
-    // source text is needed for line/column fallback.
-    parser.add_error_listener(Box::new(CollectingErrorListener {
-        errors: Rc::clone(&syntax_errors),
-        source: None,
-    }));
+    parser.add_error_listener(Box::new(CollectingErrorListener::new(
+        &syntax_errors,
+        input,
+    )));
 
     let tree = parser
         .idlFile()
-- 
2.43.0


From 82d27d1d909d7b680c979dc3dfe9e9783fadc56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:34 +0000
Subject: [PATCH 29/33] fix: show the whole unexpected token when it contains a
 quote

---
 src/reader.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/reader.rs b/src/reader.rs
index ed169f9..9b501b4 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -862,7 +862,10 @@ fn extract_quoted_token<'a>(msg: &'a str, prefix: &str) -> Option<&'a str> {
     if !rest.starts_with('\'') {
         return None;
     }
-    let end = rest[1..].find('\'')?;
+    // The token can contain quotes itself (in a string literal).
+    let end = rest[1..]
+        .rfind("' expecting ")
+        .or_else(|| rest[1..].find('\''))?;
     Some(&rest[1..1 + end])
 }
 
-- 
2.43.0


From 2614045f8dab5d2dc2c4937eb94a27a09e10e88a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:11 +0000
Subject: [PATCH 30/33] fix: do not call a string with an invalid escape or a
 tab unterminated

---
 src/reader.rs | 51 +++++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 45 insertions(+), 6 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 9b501b4..9a27987 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -498,6 +498,46 @@ fn find_unterminated_string_error(lexer_errors: &[SyntaxError]) -> Option<&Synta
         .find(|e| is_unterminated_string_lexer_error(&e.message))
 }
 
+/// Tells why the text from an opening quote on is no string literal: the lexer
+/// also gives up on characters and escape sequences that are not allowed in a
+/// string, even if the string is closed. Returns the problem and a help text.
+fn explain_broken_string(literal: &str) -> (&'static str, &'static str) {
+    let invalid_escape = (
+        "invalid escape sequence in string literal",
+        "write a backslash as `\\\\`, and other characters as `\\uXXXX`",
+    );
+    let mut chars = literal.chars();
+    // The opening quote.
+    chars.next();
+    while let Some(c) = chars.next() {
+        match c {
+            '\n' | '\r' => break,
+            '\t' | '\u{8}' | '\u{c}' => {
+                return (
+                    "control character in string literal",
+                    "write tabs, backspaces and form feeds as `\\t`, `\\b` and `\\f`",
+                );
+            }
+            '\\' => match chars.next() {
+                None | Some('\n' | '\r') => break,
+                Some('b' | 't' | 'n' | 'f' | 'r' | '"' | '\'' | '\\' | '0'..='7') => {}
+                Some('u') => {
+                    let digits = chars.as_str().trim_start_matches('u').chars().take(4);
+                    if digits.filter(char::is_ascii_hexdigit).count() < 4 {
+                        return invalid_escape;
+                    }
+                }
+                Some(_) => return invalid_escape,
+            },
+            _ => {}
+        }
+    }
+    (
+        "unterminated string literal",
+        "string literals must be closed with a `\"` on the same line",
+    )
+}
+
 // ==========================================================================
 // Large Expected-Token Set Simplification
 // ==========================================================================
@@ -2091,19 +2131,18 @@ pub fn parse_idl_named(
                 .find("token recognition error")
                 .map(|pos| unterm.message[..pos].trim_end())
                 .unwrap_or("");
+            let (problem, help) = explain_broken_string(&input[unterm.offset..]);
             let message = if line_prefix.is_empty() {
-                "unterminated string literal".to_string()
+                problem.to_string()
             } else {
-                format!("{line_prefix} unterminated string literal")
+                format!("{line_prefix} {problem}")
             };
 
             return Err(ParseDiagnostic {
                 span: SpanWithSource::new(unterm.offset, unterm.length, source_name, input),
                 message,
-                label: Some("unterminated string literal".to_string()),
-                help: Some(
-                    "string literals must be closed with a `\"` on the same line".to_string(),
-                ),
+                label: Some(problem.to_string()),
+                help: Some(help.to_string()),
                 related: Vec::new(),
             }
             .into());
-- 
2.43.0


From 6ed6fe1bf792eb4bb02ac1aadabbd8efd6b70f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:11 +0000
Subject: [PATCH 31/33] fix: speak of annotations only where the missing
 parenthesis is that of one

---
 src/reader.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/reader.rs b/src/reader.rs
index 9a27987..485169d 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -1848,6 +1848,13 @@ impl CollectingErrorListener {
         let index = tokens.binary_search_by_key(&offset, |t| t.offset).ok()?;
         Some((&tokens[..index], tokens[index]))
     }
+
+    /// Whether `@` and a name stand in front of `offset`.
+    fn follows_annotation_name(&self, offset: usize) -> bool {
+        let tokens = self.tokens.get_or_init(|| source_tokens(self.source));
+        let count = tokens.partition_point(|t| t.offset < offset);
+        matches!(&tokens[..count], [.., at, _name] if at.text == "@")
+    }
 }
 
 impl<'a, T: Recognizer<'a>> ErrorListener<'a, T> for CollectingErrorListener {
@@ -1892,6 +1899,12 @@ impl<'a, T: Recognizer<'a>> ErrorListener<'a, T> for CollectingErrorListener {
         let enriched = if msg.starts_with("no viable alternative") {
             self.tokens_up_to(offset)
                 .and_then(|(before, token)| explain_no_viable_alternative(before, &token))
+        } else if msg.starts_with("mismatched input")
+            && msg.contains("expecting '('")
+            && !self.follows_annotation_name(offset)
+        {
+            // The `(` is not that of an annotation.
+            None
         } else {
             enrich_antlr_error(msg)
         };
-- 
2.43.0


From 073933bef2cdfd8cf69ff10da214860e937283f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:58 +0000
Subject: [PATCH 32/33] fix: report the range for defaults of annotated and
 logical integers

---
 src/model/schema.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/model/schema.rs b/src/model/schema.rs
index bb3c304..cd7cebc 100644
--- a/src/model/schema.rs
+++ b/src/model/schema.rs
@@ -889,7 +889,16 @@ fn validate_default_in(
     if let Value::Number(n) = value
         && is_json_integer(n)
     {
-        match schema {
+        // Annotated primitives and logical types have the range of their
+        // underlying type.
+        let base = match schema {
+            AvroSchema::AnnotatedPrimitive { kind, .. } => kind.to_schema(),
+            AvroSchema::Logical { logical_type, .. } => {
+                logical_type.expected_base_type().to_schema()
+            }
+            other => other.clone(),
+        };
+        match base {
             AvroSchema::Int => {
                 return Some(format!(
                     "value {n} out of range for int (must be between {} and {})",
@@ -904,8 +913,6 @@ fn validate_default_in(
                     i64::MAX,
                 ));
             }
-            // Annotated primitives and logical types delegate to their underlying
-            // type via is_valid_default, so range errors for them are caught above.
             // We fall through to the generic message for other schemas.
             _ => {}
         }
-- 
2.43.0


From 4d859fe11c684238e45d6f842ce322a024df93a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:58 +0000
Subject: [PATCH 33/33] fix: say which element or value makes an array or map
 default invalid

---
 src/model/schema.rs | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/model/schema.rs b/src/model/schema.rs
index cd7cebc..7652234 100644
--- a/src/model/schema.rs
+++ b/src/model/schema.rs
@@ -918,6 +918,27 @@ fn validate_default_in(
         }
     }
 
+    // An array default is invalid because of one of its elements, and a map
+    // default because of one of its values.
+    if let AvroSchema::Array { items, .. } = schema
+        && let Some(elems) = value.as_array()
+    {
+        for (index, elem) in elems.iter().enumerate() {
+            if let Some(reason) = validate_default_in(elem, items, scope) {
+                return Some(format!("invalid value for element {index}: {reason}"));
+            }
+        }
+    }
+    if let AvroSchema::Map { values, .. } = schema
+        && let Some(obj) = value.as_object()
+    {
+        for (key, val) in obj {
+            if let Some(reason) = validate_default_in(val, values, scope) {
+                return Some(format!("invalid value for key `{key}`: {reason}"));
+            }
+        }
+    }
+
     // Produce specific messages for record defaults that fail field validation.
     if let AvroSchema::Record { fields, name, .. } = schema
         && let Some(obj) = value.as_object()
-- 
2.43.0

