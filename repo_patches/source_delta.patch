From 0dc47c00982cc6dc63e1f42d08de3c55c00dc23a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:16 +0000
Subject: [PATCH 01/58] fix: a later ADD UNIT or ADD ENTRY_CODE replaces the
 earlier value

---
 semantics/oca-bundle/src/state/attribute.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/semantics/oca-bundle/src/state/attribute.rs b/semantics/oca-bundle/src/state/attribute.rs
index 33ab18c..f56f658 100644
--- a/semantics/oca-bundle/src/state/attribute.rs
+++ b/semantics/oca-bundle/src/state/attribute.rs
@@ -102,17 +102,17 @@ impl Attribute {
                 self.format.clone_from(&other.format);
             }
 
-            if self.unit.is_none() {
+            if other.unit.is_some() {
                 self.unit.clone_from(&other.unit);
             }
 
-            if self.entry_codes.is_none() {
+            if other.entry_codes.is_some() {
                 self.entry_codes.clone_from(&other.entry_codes);
             }
 
             self.merge_entries(other);
 
-            if self.entry_codes_mapping.is_none() {
+            if other.entry_codes_mapping.is_some() {
                 self.entry_codes_mapping
                     .clone_from(&other.entry_codes_mapping);
             }
-- 
2.43.0


From 30524c090bae69217ce668126e9112cd968286d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:16 +0000
Subject: [PATCH 02/58] fix: building an OCAfile without commands is an error,
 not a panic

---
 semantics/oca-bundle/src/build.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/semantics/oca-bundle/src/build.rs b/semantics/oca-bundle/src/build.rs
index b6e5ea5..0ec2a79 100644
--- a/semantics/oca-bundle/src/build.rs
+++ b/semantics/oca-bundle/src/build.rs
@@ -111,10 +111,17 @@ pub fn from_ast(
         }
     }
     if errors.is_empty() {
-        Ok(OCABuild {
-            oca_bundle: base.unwrap().generate_bundle(),
-            steps,
-        })
+        match base {
+            Some(mut oca_box) => Ok(OCABuild {
+                oca_bundle: oca_box.generate_bundle(),
+                steps,
+            }),
+            None => Err(vec![Error::FromASTError {
+                line_number: default_command_meta.line_number,
+                raw_line: default_command_meta.raw_line,
+                message: "No commands to build from".to_string(),
+            }]),
+        }
     } else {
         Err(errors)
     }
-- 
2.43.0


From 3709e57e57f22d5288158ab684f2061109954997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:16 +0000
Subject: [PATCH 03/58] fix: an unknown language code is reported as an error,
 not a panic

---
 semantics/oca-bundle/src/build.rs | 66 +++++++++++++++----------------
 1 file changed, 32 insertions(+), 34 deletions(-)

diff --git a/semantics/oca-bundle/src/build.rs b/semantics/oca-bundle/src/build.rs
index 0ec2a79..8b9a615 100644
--- a/semantics/oca-bundle/src/build.rs
+++ b/semantics/oca-bundle/src/build.rs
@@ -127,6 +127,14 @@ pub fn from_ast(
     }
 }
 
+fn parse_language(lang: Option<ast::NestedValue>) -> Result<isolang::Language, Vec<String>> {
+    match lang {
+        Some(ast::NestedValue::Value(lang)) => isolang::Language::from_639_1(lang.as_str())
+            .ok_or_else(|| vec![format!("Unknown language: {lang}")]),
+        _ => Err(vec!["Undefined language".to_string()]),
+    }
+}
+
 pub fn apply_command(base: Option<OCABox>, op: ast::Command) -> Result<OCABox, Vec<String>> {
     let mut errors = vec![];
     let mut oca: OCABox = match base {
@@ -165,28 +173,22 @@ pub fn apply_command(base: Option<OCABox>, op: ast::Command) -> Result<OCABox, V
                 ast::OverlayType::Meta(_) => {
                     if let Some(ref properties) = content.properties {
                         let mut mut_properties = properties.clone();
-                        let lang = mut_properties.remove("lang");
-                        let mut lang_iso = None;
-                        if let Some(ast::NestedValue::Value(lang_str)) = lang {
-                            lang_iso = isolang::Language::from_639_1(lang_str.as_str());
-                        }
+                        let lang = parse_language(mut_properties.remove("lang"))?;
 
                         for (prop_name, prop_value) in mut_properties {
                             if let ast::NestedValue::Value(value) = prop_value {
-                                oca.add_meta(lang_iso.unwrap(), prop_name.clone(), value.clone());
+                                oca.add_meta(lang, prop_name.clone(), value.clone());
                             }
                         }
                     }
                 }
                 ast::OverlayType::Label(_) => {
-                    let mut lang_iso = None;
-                    if let Some(ref properties) = content.properties {
-                        let mut mut_properties = properties.clone();
-                        let lang = mut_properties.remove("lang");
-                        if let Some(ast::NestedValue::Value(lang_str)) = lang {
-                            lang_iso = isolang::Language::from_639_1(lang_str.as_str());
-                        }
-                    }
+                    let lang = parse_language(
+                        content
+                            .properties
+                            .as_ref()
+                            .and_then(|properties| properties.get("lang").cloned()),
+                    )?;
                     if let Some(ref attributes) = content.attributes {
                         for (attr_name, attr_type_value) in attributes {
                             let mut attribute = oca
@@ -198,21 +200,19 @@ pub fn apply_command(base: Option<OCABox>, op: ast::Command) -> Result<OCABox, V
                                 })?
                                 .clone();
                             if let ast::NestedValue::Value(attr_label) = attr_type_value {
-                                attribute.set_label(lang_iso.unwrap(), attr_label.clone());
+                                attribute.set_label(lang, attr_label.clone());
                             }
                             oca.add_attribute(attribute);
                         }
                     }
                 }
                 ast::OverlayType::Information(_) => {
-                    let mut lang_iso = None;
-                    if let Some(ref properties) = content.properties {
-                        let mut mut_properties = properties.clone();
-                        let lang = mut_properties.remove("lang");
-                        if let Some(ast::NestedValue::Value(lang_str)) = lang {
-                            lang_iso = isolang::Language::from_639_1(lang_str.as_str());
-                        }
-                    }
+                    let lang = parse_language(
+                        content
+                            .properties
+                            .as_ref()
+                            .and_then(|properties| properties.get("lang").cloned()),
+                    )?;
                     if let Some(ref attributes) = content.attributes {
                         for (attr_name, attr_type_value) in attributes {
                             let mut attribute = oca
@@ -224,7 +224,7 @@ pub fn apply_command(base: Option<OCABox>, op: ast::Command) -> Result<OCABox, V
                                 })?
                                 .clone();
                             if let ast::NestedValue::Value(attr_info) = attr_type_value {
-                                attribute.set_information(lang_iso.unwrap(), attr_info.clone());
+                                attribute.set_information(lang, attr_info.clone());
                             }
                             oca.add_attribute(attribute);
                         }
@@ -407,14 +407,12 @@ pub fn apply_command(base: Option<OCABox>, op: ast::Command) -> Result<OCABox, V
                     }
                 }
                 ast::OverlayType::Entry(_) => {
-                    let mut lang_iso = None;
-                    if let Some(ref properties) = content.properties {
-                        let mut mut_properties = properties.clone();
-                        let lang = mut_properties.remove("lang");
-                        if let Some(ast::NestedValue::Value(lang_str)) = lang {
-                            lang_iso = isolang::Language::from_639_1(lang_str.as_str());
-                        }
-                    }
+                    let lang = parse_language(
+                        content
+                            .properties
+                            .as_ref()
+                            .and_then(|properties| properties.get("lang").cloned()),
+                    )?;
                     if let Some(ref attributes) = content.attributes {
                         for (attr_name, attr_type_value) in attributes {
                             let mut attribute = oca
@@ -428,7 +426,7 @@ pub fn apply_command(base: Option<OCABox>, op: ast::Command) -> Result<OCABox, V
                             match attr_type_value {
                                 ast::NestedValue::Value(attr_entries) => {
                                     attribute.set_entry(
-                                        lang_iso.unwrap(),
+                                        lang,
                                         EntriesElement::Sai(attr_entries.clone()),
                                     );
                                 }
@@ -445,7 +443,7 @@ pub fn apply_command(base: Option<OCABox>, op: ast::Command) -> Result<OCABox, V
                                         }
                                     }
                                     attribute.set_entry(
-                                        lang_iso.unwrap(),
+                                        lang,
                                         EntriesElement::Object(entries),
                                     );
                                 }
-- 
2.43.0


From c2933a02cc76c4257a1f2ffc7497c0ad4ca5d7a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:16 +0000
Subject: [PATCH 04/58] fix: unsupported REMOVE and MODIFY commands are errors,
 not panics

---
 semantics/oca-bundle/src/build.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/semantics/oca-bundle/src/build.rs b/semantics/oca-bundle/src/build.rs
index 8b9a615..6b0c970 100644
--- a/semantics/oca-bundle/src/build.rs
+++ b/semantics/oca-bundle/src/build.rs
@@ -544,7 +544,9 @@ pub fn apply_command(base: Option<OCABox>, op: ast::Command) -> Result<OCABox, V
                 _ => (),
             }
         }
-        (ast::CommandType::Add, ast::ObjectKind::OCABundle(_)) => todo!(),
+        (ast::CommandType::Add, ast::ObjectKind::OCABundle(_)) => {
+            errors.push("Unsupported command: ADD bundle".to_string());
+        }
         (ast::CommandType::Remove, ast::ObjectKind::CaptureBase(content)) => {
             if let Some(ref attributes) = content.attributes {
                 for (attr_name, _) in attributes {
@@ -559,11 +561,15 @@ pub fn apply_command(base: Option<OCABox>, op: ast::Command) -> Result<OCABox, V
                 }
             }
         }
-        (ast::CommandType::Remove, ast::ObjectKind::OCABundle(_)) => todo!(),
-        (ast::CommandType::Remove, ast::ObjectKind::Overlay(_, _)) => todo!(),
-        (ast::CommandType::Modify, ast::ObjectKind::CaptureBase(_)) => todo!(),
-        (ast::CommandType::Modify, ast::ObjectKind::OCABundle(_)) => todo!(),
-        (ast::CommandType::Modify, ast::ObjectKind::Overlay(_, _)) => todo!(),
+        (ast::CommandType::Remove, ast::ObjectKind::OCABundle(_)) => {
+            errors.push("Unsupported command: REMOVE bundle".to_string());
+        }
+        (ast::CommandType::Remove, ast::ObjectKind::Overlay(overlay_type, _)) => {
+            errors.push(format!("Unsupported command: REMOVE {overlay_type}"));
+        }
+        (ast::CommandType::Modify, _) => {
+            errors.push("Unsupported command: MODIFY".to_string());
+        }
     }
 
     if errors.is_empty() {
-- 
2.43.0


From de5464481ba4fca17d5b6add38bd9c246b7dbcea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:17 +0000
Subject: [PATCH 05/58] fix: LINK without a target and ATTR_FRAMING without an
 id are errors, not panics

---
 semantics/oca-bundle/src/build.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/semantics/oca-bundle/src/build.rs b/semantics/oca-bundle/src/build.rs
index 6b0c970..403a60a 100644
--- a/semantics/oca-bundle/src/build.rs
+++ b/semantics/oca-bundle/src/build.rs
@@ -462,9 +462,10 @@ pub fn apply_command(base: Option<OCABox>, op: ast::Command) -> Result<OCABox, V
                             target_bundle = Some(target_said.to_string());
                         }
                     }
-                    if target_bundle.is_none() {
+                    let target_bundle = target_bundle.ok_or_else(|| {
                         errors.push("Undefined target bundle".to_string());
-                    }
+                        errors.clone()
+                    })?;
 
                     if let Some(ref attributes) = content.attributes {
                         for (attr_name, attr_type_value) in attributes {
@@ -477,8 +478,7 @@ pub fn apply_command(base: Option<OCABox>, op: ast::Command) -> Result<OCABox, V
                                 })?
                                 .clone();
                             if let ast::NestedValue::Value(linked_attr) = attr_type_value {
-                                attribute
-                                    .set_link(target_bundle.clone().unwrap(), linked_attr.clone());
+                                attribute.set_link(target_bundle.clone(), linked_attr.clone());
                             }
                             oca.add_attribute(attribute);
                         }
@@ -499,9 +499,10 @@ pub fn apply_command(base: Option<OCABox>, op: ast::Command) -> Result<OCABox, V
                             }
                         }
                     }
-                    if frame_id.is_none() {
+                    let frame_id = frame_id.ok_or_else(|| {
                         errors.push("Undefined frame id".to_string());
-                    }
+                        errors.clone()
+                    })?;
 
                     if let Some(ref attributes) = content.attributes {
                         for (attr_name, attr_framing_value) in attributes {
@@ -535,7 +536,7 @@ pub fn apply_command(base: Option<OCABox>, op: ast::Command) -> Result<OCABox, V
                                         }
                                     }
                                 }
-                                attribute.set_framing(frame_id.clone().unwrap(), framing.clone());
+                                attribute.set_framing(frame_id.clone(), framing.clone());
                             }
                             oca.add_attribute(attribute);
                         }
-- 
2.43.0


From 312ced25e1c1fe6cfc1ee2b1b783cd3b5fced114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:17 +0000
Subject: [PATCH 06/58] fix: frame metadata set for one attribute hold for the
 whole frame, whatever the hash order

---
 semantics/oca-bundle/src/build.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/semantics/oca-bundle/src/build.rs b/semantics/oca-bundle/src/build.rs
index 403a60a..32d5496 100644
--- a/semantics/oca-bundle/src/build.rs
+++ b/semantics/oca-bundle/src/build.rs
@@ -504,6 +504,26 @@ pub fn apply_command(base: Option<OCABox>, op: ast::Command) -> Result<OCABox, V
                         errors.clone()
                     })?;
 
+                    // Metadata belong to the frame, not to a single attribute: what is set
+                    // for the frame by any command holds for all its attributes.
+                    let mut known_frame_meta: HashMap<String, String> = oca
+                        .attributes
+                        .values()
+                        .filter_map(|attr| attr.framings.as_ref()?.get(&frame_id))
+                        .flat_map(|framing| framing.values())
+                        .flat_map(|scope| scope.frame_meta.clone())
+                        .collect();
+                    known_frame_meta.extend(frame_meta);
+                    let frame_meta = known_frame_meta;
+                    for scope in oca
+                        .attributes
+                        .values_mut()
+                        .filter_map(|attr| attr.framings.as_mut()?.get_mut(&frame_id))
+                        .flat_map(|framing| framing.values_mut())
+                    {
+                        scope.frame_meta = frame_meta.clone();
+                    }
+
                     if let Some(ref attributes) = content.attributes {
                         for (attr_name, attr_framing_value) in attributes {
                             let mut attribute = oca
-- 
2.43.0


From 20af820ef6ec5d12031130af9348d00bb6b6299e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:13 +0000
Subject: [PATCH 07/58] fix: an attribute type array without exactly one
 element type is an error, not a panic

---
 semantics/oca-ast/src/ast/attributes.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/semantics/oca-ast/src/ast/attributes.rs b/semantics/oca-ast/src/ast/attributes.rs
index ae49b7c..60cccaa 100644
--- a/semantics/oca-ast/src/ast/attributes.rs
+++ b/semantics/oca-ast/src/ast/attributes.rs
@@ -94,7 +94,9 @@ impl<'de> Deserialize<'de> for NestedAttrType {
                     }
                 }
             },
-            serde_json::Value::Array(arr) => NestedAttrTypeFrame::Array(arr[0].clone()).into(),
+            serde_json::Value::Array(arr) if arr.len() == 1 => {
+                NestedAttrTypeFrame::Array(arr[0].clone()).into()
+            }
             value => {
                 AttributeError::ConvertingFailure(serde_json::to_string(&value).unwrap()).into()
             }
-- 
2.43.0


From d49de568afedcde8d4ecd2781bd38e7cdadee34c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:13 +0000
Subject: [PATCH 08/58] fix: validating a condition over unknown or unsupported
 dependencies reports an error, not a panic

---
 semantics/oca-bundle/src/state/validator.rs | 52 +++++++++++++++++----
 1 file changed, 44 insertions(+), 8 deletions(-)

diff --git a/semantics/oca-bundle/src/state/validator.rs b/semantics/oca-bundle/src/state/validator.rs
index ba94b05..60f8291 100644
--- a/semantics/oca-bundle/src/state/validator.rs
+++ b/semantics/oca-bundle/src/state/validator.rs
@@ -230,8 +230,14 @@ impl Validator {
         let dependencies = overlay.attribute_dependencies.clone();
         let re = regex::Regex::new(r"\$\{(\d+)\}").unwrap();
         for &attr in overlay.attributes().iter() {
-            let condition = conditions.get(attr).unwrap(); // todo
-            let condition_dependencies = dependencies.get(attr).unwrap(); // todo
+            let (Some(condition), Some(condition_dependencies)) =
+                (conditions.get(attr), dependencies.get(attr))
+            else {
+                errors.push(Error::Custom(format!(
+                    "Attribute '{attr}' has a condition without dependencies"
+                )));
+                continue;
+            };
             if condition_dependencies.contains(attr) {
                 errors.push(Error::Custom(format!(
                     "Attribute '{attr}' cannot be a dependency of itself"
@@ -240,8 +246,14 @@ impl Validator {
             }
 
             let mut attr_mocks: HashMap<String, String> = HashMap::new();
+            let mut dependency_errors: Vec<Error> = vec![];
             condition_dependencies.iter().for_each(|dep| {
-                let dep_type = attr_types.get(dep).unwrap(); // todo
+                let Some(dep_type) = attr_types.get(dep) else {
+                    dependency_errors.push(Error::Custom(format!(
+                        "Attribute '{attr}' has a condition on unknown attribute '{dep}'"
+                    )));
+                    return;
+                };
                 let value = match dep_type {
                     NestedAttrType::Null => "null".to_string(),
                     NestedAttrType::Value(base_type) => match base_type {
@@ -260,21 +272,45 @@ impl Validator {
                             AttributeType::Binary => "[test]".to_string(),
                             AttributeType::Boolean => "[true]".to_string(),
                         },
-                        _ => panic!("Invalid or not supported array type"),
+                        _ => {
+                            dependency_errors.push(Error::Custom(format!(
+                                "Attribute '{attr}' has a condition on '{dep}': invalid or not supported array type"
+                            )));
+                            return;
+                        }
                     },
                     NestedAttrType::Reference(ref_value) => ref_value.to_string(),
                 };
                 attr_mocks.insert(dep.to_string(), value);
             });
+            if !dependency_errors.is_empty() {
+                errors.extend(dependency_errors);
+                continue;
+            }
 
+            let mut unknown_index = None;
             let script = re
                 .replace_all(condition, |caps: &regex::Captures| {
-                    attr_mocks
-                        .get(&condition_dependencies[caps[1].parse::<usize>().unwrap()].clone())
-                        .unwrap()
-                        .to_string()
+                    let mock = caps[1]
+                        .parse::<usize>()
+                        .ok()
+                        .and_then(|i| condition_dependencies.get(i))
+                        .and_then(|dep| attr_mocks.get(dep));
+                    match mock {
+                        Some(mock) => mock.to_string(),
+                        None => {
+                            unknown_index = Some(caps[0].to_string());
+                            String::new()
+                        }
+                    }
                 })
                 .to_string();
+            if let Some(index) = unknown_index {
+                errors.push(Error::Custom(format!(
+                    "Attribute '{attr}' has a condition with unknown dependency {index}"
+                )));
+                continue;
+            }
 
             let mut lua = Lua::new();
             let thread_result = lua.try_run(|ctx| {
-- 
2.43.0


From 4ff2145911e0375079946251bc64459761d73743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:04 +0000
Subject: [PATCH 09/58] fix: groups of entry codes are written in sorted order,
 so that a loaded bundle keeps its identifier

---
 semantics/oca-bundle/src/state/entry_codes.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/semantics/oca-bundle/src/state/entry_codes.rs b/semantics/oca-bundle/src/state/entry_codes.rs
index 9a1bddc..8577987 100644
--- a/semantics/oca-bundle/src/state/entry_codes.rs
+++ b/semantics/oca-bundle/src/state/entry_codes.rs
@@ -3,6 +3,7 @@ use serde::{
     ser::{SerializeMap, SerializeSeq},
     Deserialize, Serialize,
 };
+use std::collections::BTreeMap;
 
 impl Serialize for EntryCodes {
     fn serialize<S>(&self, serializer: S) -> Result<S::Ok, S::Error>
@@ -22,7 +23,7 @@ impl Serialize for EntryCodes {
             }
             Self::Object(codes) => {
                 let mut map = serializer.serialize_map(Some(codes.len()))?;
-                let sorted_codes: IndexMap<_, _> = codes.iter().collect();
+                let sorted_codes: BTreeMap<_, _> = codes.iter().collect();
                 for (k, v) in sorted_codes {
                     map.serialize_entry(k, v)?;
                 }
-- 
2.43.0


From 6129bb34d351b82a625b825957f140d09895338d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:04 +0000
Subject: [PATCH 10/58] fix: a malformed overlay in bundle JSON is an error,
 not a panic

---
 semantics/oca-bundle/src/state/oca.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/semantics/oca-bundle/src/state/oca.rs b/semantics/oca-bundle/src/state/oca.rs
index 241336f..a0f14c5 100644
--- a/semantics/oca-bundle/src/state/oca.rs
+++ b/semantics/oca-bundle/src/state/oca.rs
@@ -642,10 +642,10 @@ where
             while let Some((_, value)) = map.next_entry::<String, serde_value::Value>()? {
                 if let serde_value::Value::Seq(ov) = value {
                     for o in ov {
-                        overlays.push(o.deserialize_into().unwrap());
+                        overlays.push(o.deserialize_into().map_err(serde::de::Error::custom)?);
                     }
                 } else if let serde_value::Value::Map(_) = value {
-                    overlays.push(value.deserialize_into().unwrap());
+                    overlays.push(value.deserialize_into().map_err(serde::de::Error::custom)?);
                 }
             }
 
-- 
2.43.0


From 80e8e33779d1a8f38c6bed238fb473eb11141499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:03 +0000
Subject: [PATCH 11/58] fix: the identifier filled into a package is the one
 its encoded form carries

---
 oca/src/facade/bundle.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/oca/src/facade/bundle.rs b/oca/src/facade/bundle.rs
index 7ce3fab..8768165 100644
--- a/oca/src/facade/bundle.rs
+++ b/oca/src/facade/bundle.rs
@@ -61,6 +61,16 @@ impl Bundle {
         let code = HashFunctionCode::Blake3_256;
         let format = SerializationFormats::JSON;
         self.compute_digest(&code, &format);
+        // the identifier of the package is the one its encoded form carries
+        if self.structural.is_some() {
+            if let Some(encoded) = self
+                .encode()
+                .ok()
+                .and_then(|encoded| serde_json::from_str::<Self>(&encoded).ok())
+            {
+                self.said = encoded.said;
+            }
+        }
     }
 
     pub fn encode(&self) -> Result<String, serde_json::Error> {
-- 
2.43.0


From 330f57c63684bf86ccea367618e60ab4d65a11bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:48 +0000
Subject: [PATCH 12/58] fix: commands after FROM are checked against what the
 base defines, and FROM a name is an error

---
 oca/src/facade/build.rs            | 38 +++++++++++++++++++++++++++++-
 semantics/oca-ast/src/validator.rs |  4 ++++
 2 files changed, 41 insertions(+), 1 deletion(-)

diff --git a/oca/src/facade/build.rs b/oca/src/facade/build.rs
index d7d6d7a..1e79793 100644
--- a/oca/src/facade/build.rs
+++ b/oca/src/facade/build.rs
@@ -12,6 +12,7 @@ use crate::repositories::{
 #[cfg(feature = "local-references")]
 use log::debug;
 use oca_ast_semantics::ast::{OCAAst, ObjectKind, RefValue, ReferenceAttrType};
+use oca_ast_semantics::validator::{OCAValidator, Validator};
 use oca_bundle_semantics::build::{OCABuild, OCABuildStep};
 use oca_bundle_semantics::state::oca::OCABundle;
 use oca_bundle_semantics::Encode;
@@ -169,6 +170,7 @@ impl Facade {
         }
 
         let mut base: Option<OCABundle> = None;
+        let mut from_base = false;
         // TODO this should be avoided if the ast is passed for further processing, the base is
         // checked again in generate bundle
         if let Some(first_command) = oca_ast.commands.first() {
@@ -205,16 +207,50 @@ impl Facade {
                                     }
                                 }
                             }
-                            RefValue::Name(_) => todo!(),
+                            RefValue::Name(name) => {
+                                return Err(vec![ValidationError::InvalidCommand {
+                                    line_number: 0,
+                                    raw_line: "unknown".to_string(),
+                                    message: format!("Invalid base: refn:{name}"),
+                                }]);
+                            }
                         }
                     }
                 }
                 oca_ast.commands.remove(0);
+                from_base = true;
             }
         };
+        if from_base {
+            Self::check_commands_against_base(base.as_ref(), &oca_ast)?;
+        }
         Ok((base, oca_ast))
     }
 
+    /// Commands following FROM add to and remove from what the base defines.
+    fn check_commands_against_base(
+        base: Option<&OCABundle>,
+        oca_ast: &OCAAst,
+    ) -> Result<(), Vec<ValidationError>> {
+        let mut checked = base.map(|base| base.to_ast()).unwrap_or_else(OCAAst::new);
+        for (i, command) in oca_ast.commands.iter().enumerate() {
+            if let Err(e) = (OCAValidator {}).validate(&checked, command.clone()) {
+                let (line_number, raw_line) = oca_ast
+                    .commands_meta
+                    .get(&(i + 1))
+                    .map(|meta| (meta.line_number, meta.raw_line.clone()))
+                    .unwrap_or((0, "unknown".to_string()));
+                return Err(vec![ValidationError::InvalidCommand {
+                    line_number,
+                    raw_line,
+                    message: format!("Error validating instruction: {e}"),
+                }]);
+            }
+            checked.commands.push(command.clone());
+        }
+        Ok(())
+    }
+
     #[cfg(feature = "local-references")]
     fn oca_ast_to_oca_build_with_references<R: References>(
         base: Option<OCABundle>,
diff --git a/semantics/oca-ast/src/validator.rs b/semantics/oca-ast/src/validator.rs
index bdcd733..2df62cd 100644
--- a/semantics/oca-ast/src/validator.rs
+++ b/semantics/oca-ast/src/validator.rs
@@ -56,6 +56,10 @@ fn validate_1_0_0(ast: &OCAAst, command: Command) -> Result<bool, Error> {
     // Cannot modify if does not exist on stack
     // Cannot add if already exists on stack
     // Attributes must have valid type
+    if let Some(CommandType::From) = ast.commands.first().map(|c| c.kind.clone()) {
+        // what exists depends on the base, it is checked once the base is known
+        return Ok(true);
+    }
     let mut valid = true;
     let mut errors = Vec::new();
     match (&command.kind, &command.object_kind) {
-- 
2.43.0


From da040249dcef637012352e0b5810ae1e3a5a51cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:23 +0000
Subject: [PATCH 13/58] fix: a named reference is resolved at any array depth,
 and an ill-formed one is an error

---
 oca/src/local_references.rs | 57 ++++++++++++++++---------------------
 1 file changed, 24 insertions(+), 33 deletions(-)

diff --git a/oca/src/local_references.rs b/oca/src/local_references.rs
index 0a34b37..2e9146c 100644
--- a/oca/src/local_references.rs
+++ b/oca/src/local_references.rs
@@ -23,29 +23,14 @@ pub fn replace_refn_with_refs<R: References>(
         {
             if let Some(attributes) = &mut content.attributes {
                 for (_, attr_type) in attributes {
-                    match attr_type {
-                        NestedAttrType::Reference(RefValue::Name(refn)) => {
-                            if let Some(said) = references.find(refn) {
-                                let said = SelfAddressingIdentifier::from_str(&said).unwrap(); // todo
-                                *attr_type = NestedAttrType::Reference(RefValue::Said(said));
-                            } else {
-                                return Err(ValidationError::UnknownRefn(refn.clone()));
-                            }
-                        }
-                        NestedAttrType::Array(box_attr_type) => {
-                            if let NestedAttrType::Reference(RefValue::Name(refn)) =
-                                &**box_attr_type
-                            {
-                                if let Some(said) = references.find(refn) {
-                                    let said = SelfAddressingIdentifier::from_str(&said).unwrap(); // todo
-                                    **box_attr_type =
-                                        NestedAttrType::Reference(RefValue::Said(said));
-                                } else {
-                                    return Err(ValidationError::UnknownRefn(refn.clone()));
-                                }
-                            }
-                        }
-                        _ => (),
+                    let mut attr_type = attr_type;
+                    // the reference may be at any depth of an array
+                    while let NestedAttrType::Array(box_attr_type) = attr_type {
+                        attr_type = box_attr_type;
+                    }
+                    if let NestedAttrType::Reference(RefValue::Name(refn)) = attr_type {
+                        let said = find_said(refn, references)?;
+                        *attr_type = NestedAttrType::Reference(RefValue::Said(said));
                     }
                 }
             }
@@ -57,19 +42,25 @@ pub fn replace_refn_with_refs<R: References>(
             if let Some(properties) = &mut content.properties {
                 if let Some(NestedValue::Reference(RefValue::Name(refn))) = properties.get("target")
                 {
-                    if let Some(said) = references.find(refn) {
-                        let said = SelfAddressingIdentifier::from_str(&said).unwrap(); // todo
-                        properties.insert(
-                            "target".to_string(),
-                            NestedValue::Reference(RefValue::Said(said)),
-                        );
-                        *properties = properties.clone();
-                    } else {
-                        return Err(ValidationError::UnknownRefn(refn.clone()));
-                    }
+                    let said = find_said(refn, references)?;
+                    properties.insert(
+                        "target".to_string(),
+                        NestedValue::Reference(RefValue::Said(said)),
+                    );
+                    *properties = properties.clone();
                 }
             }
         }
     }
     Ok(())
 }
+
+fn find_said<R: References>(
+    refn: &str,
+    references: &R,
+) -> Result<SelfAddressingIdentifier, ValidationError> {
+    references
+        .find(refn)
+        .and_then(|said| SelfAddressingIdentifier::from_str(&said).ok())
+        .ok_or_else(|| ValidationError::UnknownRefn(refn.to_string()))
+}
-- 
2.43.0


From a53cc54bb76d2cb3d8973da0926c70a2ed331f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:47 +0000
Subject: [PATCH 14/58] fix: dependencies are found at any array depth

---
 oca/src/facade/fetch.rs | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/oca/src/facade/fetch.rs b/oca/src/facade/fetch.rs
index f588588..0d63a5c 100644
--- a/oca/src/facade/fetch.rs
+++ b/oca/src/facade/fetch.rs
@@ -409,17 +409,12 @@ fn retrive_all_references(bundle: OCABundle) -> Vec<SelfAddressingIdentifier> {
     let mut refs: Vec<SelfAddressingIdentifier> = vec![];
 
     for (_, value) in bundle.capture_base.attributes {
-        match value {
-            ast::NestedAttrType::Reference(RefValue::Said(said)) => {
-                refs.push(said);
-            }
-            // TODO(recursion) handle nested arrays
-            ast::NestedAttrType::Array(box_attr_type) => {
-                if let ast::NestedAttrType::Reference(RefValue::Said(said)) = &*box_attr_type {
-                    refs.push(said.clone());
-                }
-            }
-            _ => {}
+        let mut value = value;
+        while let ast::NestedAttrType::Array(box_attr_type) = value {
+            value = *box_attr_type;
+        }
+        if let ast::NestedAttrType::Reference(RefValue::Said(said)) = value {
+            refs.push(said);
         }
     }
     refs
-- 
2.43.0


From 21a78807b21879aacf457f4a0488519d9162ac58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:47 +0000
Subject: [PATCH 15/58] fix: building a bundle again keeps its history, which
 could become cyclic

---
 oca/src/facade/build.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/oca/src/facade/build.rs b/oca/src/facade/build.rs
index 1e79793..4913cda 100644
--- a/oca/src/facade/build.rs
+++ b/oca/src/facade/build.rs
@@ -335,13 +335,19 @@ impl Facade {
         let command_str = serde_json::to_string(&step.command).unwrap();
         input.extend(command_str.as_bytes());
         let result_bundle = step.result.clone();
-        self.db
-            .insert(
-                Namespace::OCA,
-                &format!("oca.{}.operation", result_bundle.said.clone().unwrap()),
-                &input,
-            )
-            .unwrap();
+        // the history of a bundle is how it was first reached; reaching it again, by a command
+        // without effect or by undoing one, must not make the history refer to itself
+        let operation_key = format!("oca.{}.operation", result_bundle.said.clone().unwrap());
+        if self
+            .db
+            .get(Namespace::OCA, &operation_key)
+            .unwrap()
+            .is_none()
+        {
+            self.db
+                .insert(Namespace::OCA, &operation_key, &input)
+                .unwrap();
+        }
 
         let code = HashFunctionCode::Blake3_256;
         let format = SerializationFormats::JSON;
-- 
2.43.0


From e3568b60966f1854119bb58c3cc0b72d5d8f4078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:26 +0000
Subject: [PATCH 16/58] fix: ADD FLAGGED_ATTRIBUTES flags the attributes it
 names instead of being ignored

---
 semantics/oca-bundle/src/build.rs                   | 11 +++++++++++
 semantics/oca-bundle/src/state/attribute.rs         |  4 ++++
 semantics/oca-bundle/src/state/oca.rs               | 13 +++++++++++++
 .../oca-file/src/ocafile/instructions/helpers.rs    |  4 +++-
 semantics/oca-file/src/ocafile/mod.rs               |  6 ++++++
 5 files changed, 37 insertions(+), 1 deletion(-)

diff --git a/semantics/oca-bundle/src/build.rs b/semantics/oca-bundle/src/build.rs
index 32d5496..c1f9a05 100644
--- a/semantics/oca-bundle/src/build.rs
+++ b/semantics/oca-bundle/src/build.rs
@@ -157,6 +157,17 @@ pub fn apply_command(base: Option<OCABox>, op: ast::Command) -> Result<OCABox, V
                     oca.add_attribute(attribute);
                 }
             }
+            if let Some(ref flagged_attributes) = content.flagged_attributes {
+                for attr_name in flagged_attributes {
+                    oca.attributes
+                        .get_mut(attr_name)
+                        .ok_or_else(|| {
+                            errors.push(format!("Undefined attribute: {attr_name}"));
+                            errors.clone()
+                        })?
+                        .set_flagged();
+                }
+            }
             if let Some(ref properties) = content.properties {
                 // TODO handle other properties
                 for (prop_name, prop_value) in properties {
diff --git a/semantics/oca-bundle/src/state/attribute.rs b/semantics/oca-bundle/src/state/attribute.rs
index f56f658..3677222 100644
--- a/semantics/oca-bundle/src/state/attribute.rs
+++ b/semantics/oca-bundle/src/state/attribute.rs
@@ -85,6 +85,10 @@ impl Attribute {
                 self.attribute_type.clone_from(&other.attribute_type);
             }
 
+            if other.is_flagged {
+                self.is_flagged = true;
+            }
+
             self.merge_labels(other);
             self.merge_information(other);
             self.merge_category_labels(other);
diff --git a/semantics/oca-bundle/src/state/oca.rs b/semantics/oca-bundle/src/state/oca.rs
index a0f14c5..e2fc387 100644
--- a/semantics/oca-bundle/src/state/oca.rs
+++ b/semantics/oca-bundle/src/state/oca.rs
@@ -956,6 +956,19 @@ impl OCABundle {
         };
         ast.commands.push(command);
 
+        let mut flagged_attributes = self.capture_base.flagged_attributes.clone();
+        if !flagged_attributes.is_empty() {
+            flagged_attributes.sort();
+            ast.commands.push(Command {
+                kind: CommandType::Add,
+                object_kind: ObjectKind::CaptureBase(CaptureContent {
+                    attributes: None,
+                    properties: None,
+                    flagged_attributes: Some(flagged_attributes),
+                }),
+            });
+        }
+
         self.overlays.iter().for_each(|overlay| {
             match overlay.overlay_type() {
                 OverlayType::CharacterEncoding(_) => {
diff --git a/semantics/oca-file/src/ocafile/instructions/helpers.rs b/semantics/oca-file/src/ocafile/instructions/helpers.rs
index 7188edc..cf82496 100644
--- a/semantics/oca-file/src/ocafile/instructions/helpers.rs
+++ b/semantics/oca-file/src/ocafile/instructions/helpers.rs
@@ -482,7 +482,9 @@ pub(crate) fn extract_flagged_attrs(object: pest::iterators::Pair<'_, Rule>) ->
     for attr in object.into_inner() {
         match attr.as_rule() {
             Rule::list_value => {
-                flagged_attrs.push(attr.as_str().to_string());
+                for value in attr.into_inner() {
+                    flagged_attrs.push(value.as_str().to_string());
+                }
             }
             _ => {
                 debug!(
diff --git a/semantics/oca-file/src/ocafile/mod.rs b/semantics/oca-file/src/ocafile/mod.rs
index 027bdf8..6120240 100644
--- a/semantics/oca-file/src/ocafile/mod.rs
+++ b/semantics/oca-file/src/ocafile/mod.rs
@@ -176,6 +176,12 @@ pub fn generate_from_ast(ast: &OCAAst) -> String {
                                 line.push_str(&out);
                             }
                         }
+                        if let Some(flagged_attributes) = &content.flagged_attributes {
+                            line.push_str("FLAGGED_ATTRIBUTES");
+                            for attr_name in flagged_attributes {
+                                line.push_str(&format!(" {}", attr_name));
+                            }
+                        }
                         if let Some(properties) = &content.properties {
                             for (prop_name, prop_value) in properties {
                                 if prop_name.eq("classification") {
-- 
2.43.0


From 298642f65c46c64ca1fbbacd8e8a4fbe1e1abf90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:27 +0000
Subject: [PATCH 17/58] fix: META properties named like fields of the overlay
 are an error instead of a corrupt bundle

---
 .../oca-file/src/ocafile/instructions/add.rs    | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/semantics/oca-file/src/ocafile/instructions/add.rs b/semantics/oca-file/src/ocafile/instructions/add.rs
index b08fdf9..3513104 100644
--- a/semantics/oca-file/src/ocafile/instructions/add.rs
+++ b/semantics/oca-file/src/ocafile/instructions/add.rs
@@ -5,6 +5,9 @@ use oca_ast_semantics::ast::{
     CaptureContent, Command, CommandType, NestedAttrType, NestedValue, ObjectKind, OverlayType,
 };
 
+/// Names of the fields of a meta overlay, which its properties cannot have.
+const RESERVED_META_PROPS: [&str; 5] = ["lang", "d", "capture_base", "type", "language"];
+
 pub struct AddInstruction {}
 
 impl AddInstruction {
@@ -17,6 +20,20 @@ impl AddInstruction {
             let overlay_version = "1.1".to_string();
             match object.as_rule() {
                 Rule::meta => {
+                    for prop in object
+                        .clone()
+                        .into_inner()
+                        .filter(|pair| pair.as_rule() == Rule::prop_key_pairs)
+                        .flat_map(|pairs| pairs.into_inner())
+                    {
+                        if let Some((key, _)) = helpers::extract_attribute_key_pairs(prop) {
+                            if RESERVED_META_PROPS.contains(&key.as_str()) {
+                                return Err(InstructionError::UnexpectedToken(format!(
+                                    "Reserved name of a META property: {key}"
+                                )));
+                            }
+                        }
+                    }
                     object_kind = Some(ObjectKind::Overlay(
                         oca_ast_semantics::ast::OverlayType::Meta(overlay_version),
                         helpers::extract_content(object),
-- 
2.43.0


From f8d1b386a5eb9b09b9d40f3e23e60acd12a3263d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:29 +0000
Subject: [PATCH 18/58] fix: a command's line number is the line it is written
 on

---
 semantics/oca-file/src/ocafile/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/semantics/oca-file/src/ocafile/mod.rs b/semantics/oca-file/src/ocafile/mod.rs
index 6120240..55e38ce 100644
--- a/semantics/oca-file/src/ocafile/mod.rs
+++ b/semantics/oca-file/src/ocafile/mod.rs
@@ -63,7 +63,7 @@ pub fn parse_from_string(unparsed_file: String) -> Result<OCAAst, ParseError> {
 
     let validator = OCAValidator {};
 
-    for (n, line) in file.into_inner().enumerate() {
+    for line in file.into_inner() {
         if let Rule::EOI = line.as_rule() {
             continue;
         }
@@ -106,7 +106,7 @@ pub fn parse_from_string(unparsed_file: String) -> Result<OCAAst, ParseError> {
                     oca_ast.commands_meta.insert(
                         oca_ast.commands.len() - 1,
                         CommandMeta {
-                            line_number: n + 1,
+                            line_number: line.as_span().start_pos().line_col().0,
                             raw_line: line.as_str().to_string(),
                         },
                     );
-- 
2.43.0


From c74c815a682917305ba42e7a419b7c57dfd79daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:59 +0000
Subject: [PATCH 19/58] fix: quote exported OCAfile values so that they read
 back unchanged

---
 semantics/oca-file/src/ocafile/mod.rs | 65 +++++++++++++++++++--------
 1 file changed, 46 insertions(+), 19 deletions(-)

diff --git a/semantics/oca-file/src/ocafile/mod.rs b/semantics/oca-file/src/ocafile/mod.rs
index 55e38ce..7d24c07 100644
--- a/semantics/oca-file/src/ocafile/mod.rs
+++ b/semantics/oca-file/src/ocafile/mod.rs
@@ -149,6 +149,32 @@ fn oca_file_format(nested: NestedAttrType) -> String {
     })
 }
 
+/// Quotes a value so that it reads back unchanged. A value is kept as it was written, escapes
+/// included, so it may contain the quote of the other kind; a value neither quote can hold was
+/// written without quotes.
+fn quote(value: &str) -> String {
+    let fits = |quote: char| {
+        let mut chars = value.chars();
+        while let Some(c) = chars.next() {
+            if c == quote
+                || c == '\u{0000}'
+                || c == '\u{001F}'
+                || (c == '\\' && chars.next().is_none())
+            {
+                return false;
+            }
+        }
+        true
+    };
+    if fits('"') {
+        format!("\"{}\"", value)
+    } else if fits('\'') {
+        format!("'{}'", value)
+    } else {
+        value.to_string()
+    }
+}
+
 /// Generate OCA file from AST
 ///
 /// # Arguments
@@ -208,7 +234,7 @@ pub fn generate_from_ast(ast: &OCAAst) -> String {
                                         properties.iter().for_each(|(key, value)| {
                                             if let ast::NestedValue::Value(value) = value {
                                                 line.push_str(
-                                                    format!(" {}=\"{}\"", key, value).as_str(),
+                                                    format!(" {}={}", key, quote(value)).as_str(),
                                                 );
                                             }
                                         });
@@ -224,7 +250,7 @@ pub fn generate_from_ast(ast: &OCAAst) -> String {
                                     attributes.iter().for_each(|(key, value)| {
                                         if let ast::NestedValue::Value(value) = value {
                                             line.push_str(
-                                                format!(" {}=\"{}\"", key, value).as_str(),
+                                                format!(" {}={}", key, quote(value)).as_str(),
                                             );
                                         }
                                     });
@@ -254,7 +280,7 @@ pub fn generate_from_ast(ast: &OCAAst) -> String {
                                                 .iter()
                                                 .filter_map(|value| {
                                                     if let ast::NestedValue::Value(value) = value {
-                                                        Some(format!("\"{}\"", value))
+                                                        Some(quote(value))
                                                     } else {
                                                         None
                                                     }
@@ -272,14 +298,14 @@ pub fn generate_from_ast(ast: &OCAAst) -> String {
                                                 .iter()
                                                 .filter_map(|value| {
                                                     if let ast::NestedValue::Value(value) = value {
-                                                        Some(format!("\"{}\"", value))
+                                                        Some(quote(value))
                                                     } else {
                                                         None
                                                     }
                                                 })
                                                 .collect::<Vec<String>>()
                                                 .join(", ");
-                                                    Some(format!("\"{}\": [{}]", group, codes))
+                                                    Some(format!("{}: [{}]", quote(group), codes))
                                                     } else {
                                                         None
                                                     }
@@ -289,7 +315,7 @@ pub fn generate_from_ast(ast: &OCAAst) -> String {
                                             line.push_str(format!(" {}={{{}}}", key, group_codes).as_str());
                                         } else if let ast::NestedValue::Value(said) = value {
                                             line.push_str(
-                                                format!(" {}=\"{}\"", key, said).as_str(),
+                                                format!(" {}={}", key, quote(said)).as_str(),
                                             );
                                         }
                                     });
@@ -329,8 +355,9 @@ pub fn generate_from_ast(ast: &OCAAst) -> String {
                                                             label
                                                         {
                                                             Some(format!(
-                                                                "\"{}\": \"{}\"",
-                                                                code, label
+                                                                "{}: {}",
+                                                                quote(code),
+                                                                quote(label)
                                                             ))
                                                         } else {
                                                             None
@@ -343,7 +370,7 @@ pub fn generate_from_ast(ast: &OCAAst) -> String {
                                                 );
                                             } else if let ast::NestedValue::Value(value) = value {
                                                 line.push_str(
-                                                    format!(" {}=\"{}\"", key, value).as_str(),
+                                                    format!(" {}={}", key, quote(value)).as_str(),
                                                 );
                                             }
                                         });
@@ -371,7 +398,7 @@ pub fn generate_from_ast(ast: &OCAAst) -> String {
                                     attributes.iter().for_each(|(key, value)| {
                                         if let ast::NestedValue::Value(value) = value {
                                             line.push_str(
-                                                format!(" {}=\"{}\"", key, value).as_str(),
+                                                format!(" {}={}", key, quote(value)).as_str(),
                                             );
                                         }
                                     });
@@ -394,7 +421,7 @@ pub fn generate_from_ast(ast: &OCAAst) -> String {
                                     attributes.iter().for_each(|(key, value)| {
                                         if let ast::NestedValue::Value(value) = value {
                                             line.push_str(
-                                                format!(" {}=\"{}\"", key, value).as_str(),
+                                                format!(" {}={}", key, quote(value)).as_str(),
                                             );
                                         }
                                     });
@@ -408,7 +435,7 @@ pub fn generate_from_ast(ast: &OCAAst) -> String {
                                     for (prop_name, prop_value) in properties {
                                         let key = prop_name.replace("frame_", "");
                                         if let ast::NestedValue::Value(value) = prop_value {
-                                            line.push_str(format!("        {}=\"{}\" \\\n", key, value).as_str());
+                                            line.push_str(format!("        {}={} \\\n", key, quote(value)).as_str());
                                         }
                                     }
                                 }
@@ -421,8 +448,8 @@ pub fn generate_from_ast(ast: &OCAAst) -> String {
                                                 let mut frame_str = "\n            ".to_string();
                                                 frame_str.push_str(
                                                     format!(
-                                                        "\"{}\": {{",
-                                                        f_key
+                                                        "{}: {{",
+                                                        quote(f_key)
                                                     ).as_str()
                                                 );
 
@@ -431,9 +458,9 @@ pub fn generate_from_ast(ast: &OCAAst) -> String {
                                                         if let ast::NestedValue::Value(frame_value) = frame_value {
                                                             frame_str.push_str(
                                                                 format!(
-                                                                    "\n                \"{}\": \"{}\",",
-                                                                    frame_key,
-                                                                    frame_value
+                                                                    "\n                {}: {},",
+                                                                    quote(frame_key),
+                                                                    quote(frame_value)
                                                                 ).as_str()
                                                             );
                                                         }
@@ -472,7 +499,7 @@ pub fn generate_from_ast(ast: &OCAAst) -> String {
                                         properties.iter().for_each(|(key, value)| {
                                             if let ast::NestedValue::Value(value) = value {
                                                 line.push_str(
-                                                    format!(" {}=\"{}\"", key, value).as_str(),
+                                                    format!(" {}={}", key, quote(value)).as_str(),
                                                 );
                                             }
                                         });
@@ -483,7 +510,7 @@ pub fn generate_from_ast(ast: &OCAAst) -> String {
                                     attributes.iter().for_each(|(key, value)| {
                                         if let ast::NestedValue::Value(value) = value {
                                             line.push_str(
-                                                format!(" {}=\"{}\"", key, value).as_str(),
+                                                format!(" {}={}", key, quote(value)).as_str(),
                                             );
                                         }
                                     });
-- 
2.43.0


From 6dad1dd9ac2896e9af2be9145b1ba17c0917f4aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:34 +0000
Subject: [PATCH 20/58] fix: export FROM, name references and multi-attribute
 entries as valid OCAfile

---
 semantics/oca-file/src/ocafile/mod.rs | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/semantics/oca-file/src/ocafile/mod.rs b/semantics/oca-file/src/ocafile/mod.rs
index 7d24c07..46f9499 100644
--- a/semantics/oca-file/src/ocafile/mod.rs
+++ b/semantics/oca-file/src/ocafile/mod.rs
@@ -128,10 +128,7 @@ pub fn parse_from_string(unparsed_file: String) -> Result<OCAAst, ParseError> {
 
 // Format reference to oca file syntax
 fn format_reference(ref_value: RefValue) -> String {
-    match ref_value {
-        RefValue::Said(said) => format!("refs:{}", said),
-        _ => panic!("Unsupported reference type: {:?}", ref_value),
-    }
+    ref_value.to_string()
 }
 
 // Convert NestedAttrType to oca file syntax
@@ -343,7 +340,7 @@ pub fn generate_from_ast(ast: &OCAAst) -> String {
                                         });
                                     }
                                     if let Some(ref attributes) = content.attributes {
-                                        line.push_str("ATTRS ");
+                                        line.push_str("ATTRS");
                                         attributes.iter().for_each(|(key, value)| {
                                             // TODO there is no need for NestedValue here
                                             if let ast::NestedValue::Object(values) = value {
@@ -366,7 +363,7 @@ pub fn generate_from_ast(ast: &OCAAst) -> String {
                                                     .collect::<Vec<String>>()
                                                     .join(", ");
                                                 line.push_str(
-                                                    format!("{}={{{}}}", key, codes).as_str(),
+                                                    format!(" {}={{{}}}", key, codes).as_str(),
                                                 );
                                             } else if let ast::NestedValue::Value(value) = value {
                                                 line.push_str(
@@ -410,9 +407,9 @@ pub fn generate_from_ast(ast: &OCAAst) -> String {
                             if let Some(content) = command.object_kind.overlay_content() {
                                 if let Some(ref properties) = content.properties {
                                     let target = properties.get("target");
-                                    if let Some(ast::NestedValue::Reference(RefValue::Said(target_said))) = target {
+                                    if let Some(ast::NestedValue::Reference(target)) = target {
                                         line.push_str(
-                                            format!("refs:{} ", target_said).as_str(),
+                                            format!("{} ", format_reference(target.clone())).as_str(),
                                         );
                                     }
                                 }
@@ -545,6 +542,16 @@ pub fn generate_from_ast(ast: &OCAAst) -> String {
             },
             ast::CommandType::From => {
                 line.push_str("FROM ");
+                if let Some(content) = command.object_kind.oca_bundle_content() {
+                    match &content.said {
+                        ast::ReferenceAttrType::Reference(RefValue::Said(said)) => {
+                            line.push_str(&said.to_string())
+                        }
+                        ast::ReferenceAttrType::Reference(name) => {
+                            line.push_str(&format_reference(name.clone()))
+                        }
+                    }
+                }
             }
             ast::CommandType::Modify => todo!(),
         }
-- 
2.43.0


From 36e15e0b77e8ce0fd9036f9e21879b53a048f0fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:00 +0000
Subject: [PATCH 21/58] fix: export classification, link and framing overlays
 of a bundle

---
 semantics/oca-bundle/src/state/oca.rs | 108 ++++++++++++++++++++------
 1 file changed, 86 insertions(+), 22 deletions(-)

diff --git a/semantics/oca-bundle/src/state/oca.rs b/semantics/oca-bundle/src/state/oca.rs
index e2fc387..0bef8b4 100644
--- a/semantics/oca-bundle/src/state/oca.rs
+++ b/semantics/oca-bundle/src/state/oca.rs
@@ -28,6 +28,7 @@ use convert_case::{Case, Casing};
 use isolang::Language;
 use oca_ast_semantics::ast::{
     CaptureContent, Command, CommandType, Content, NestedValue, OCAAst, ObjectKind, OverlayType,
+    RefValue,
 };
 /// Internal representation of OCA objects in split between non-attributes values and attributes.
 /// It is used to build dynamically objects without knowing yet whole structure of the object.
@@ -928,33 +929,33 @@ impl OCABundle {
     pub fn to_ast(&self) -> OCAAst {
         let mut ast = OCAAst::new();
 
-        let mut properties = None;
+        if !self.capture_base.attributes.is_empty() {
+            ast.commands.push(Command {
+                kind: CommandType::Add,
+                object_kind: ObjectKind::CaptureBase(CaptureContent {
+                    // TODO find out if we can use indexmap in capture base to simplify stuff
+                    attributes: Some(self.capture_base.attributes.clone().into_iter().collect()),
+                    properties: None,
+                    flagged_attributes: None,
+                }),
+            });
+        }
+
         if !self.capture_base.classification.is_empty() {
-            properties = Some(IndexMap::new());
-            properties.as_mut().unwrap().insert(
+            let mut properties = IndexMap::new();
+            properties.insert(
                 "classification".to_string(),
                 NestedValue::Value(self.capture_base.classification.clone()),
             );
-        }
-
-        let mut attributes = IndexMap::new();
-        self.capture_base
-            .attributes
-            .iter()
-            .for_each(|(attr_name, attr_type)| {
-                attributes.insert(attr_name.clone(), attr_type.clone());
+            ast.commands.push(Command {
+                kind: CommandType::Add,
+                object_kind: ObjectKind::CaptureBase(CaptureContent {
+                    attributes: None,
+                    properties: Some(properties),
+                    flagged_attributes: None,
+                }),
             });
-
-        let command = Command {
-            kind: CommandType::Add,
-            object_kind: ObjectKind::CaptureBase(CaptureContent {
-                // TODO find out if we can use indexmap in capture base to simplify stuff
-                attributes: Some(self.capture_base.attributes.clone().into_iter().collect()),
-                properties,
-                flagged_attributes: None,
-            }),
-        };
-        ast.commands.push(command);
+        }
 
         let mut flagged_attributes = self.capture_base.flagged_attributes.clone();
         if !flagged_attributes.is_empty() {
@@ -1300,6 +1301,69 @@ impl OCABundle {
                     };
                     ast.commands.push(command);
                 }
+                OverlayType::Link(_) => {
+                    let link = overlay.as_any().downcast_ref::<overlay::Link>().unwrap();
+                    let target = match link.target_bundle.parse() {
+                        Ok(said) => NestedValue::Reference(RefValue::Said(said)),
+                        Err(_) => NestedValue::Value(link.target_bundle.clone()),
+                    };
+                    let mut properties = IndexMap::new();
+                    properties.insert("target".to_string(), target);
+                    let mut attributes = IndexMap::new();
+                    for (attr_name, mapping) in link.attribute_mapping.iter() {
+                        attributes.insert(attr_name.clone(), NestedValue::Value(mapping.clone()));
+                    }
+                    let command = Command {
+                        kind: CommandType::Add,
+                        object_kind: ObjectKind::Overlay(
+                            overlay.overlay_type().clone(),
+                            Content {
+                                attributes: Some(attributes),
+                                properties: Some(properties),
+                            },
+                        ),
+                    };
+                    ast.commands.push(command);
+                }
+                OverlayType::AttributeFraming(_) => {
+                    let framing = overlay
+                        .as_any()
+                        .downcast_ref::<overlay::AttributeFraming>()
+                        .unwrap();
+                    let mut properties = IndexMap::new();
+                    for (meta_name, meta_value) in framing.metadata.iter() {
+                        let name = meta_name.strip_prefix("frame_").unwrap_or(meta_name);
+                        properties.insert(name.to_string(), NestedValue::Value(meta_value.clone()));
+                    }
+                    let mut attributes = IndexMap::new();
+                    for (attr_name, scopes) in framing.attribute_framing.iter() {
+                        let mut frames = IndexMap::new();
+                        for (frame, scope) in scopes.iter() {
+                            let mut values = IndexMap::new();
+                            values.insert(
+                                "predicate_id".to_string(),
+                                NestedValue::Value(scope.predicate_id.clone()),
+                            );
+                            values.insert(
+                                "framing_justification".to_string(),
+                                NestedValue::Value(scope.framing_justification.clone()),
+                            );
+                            frames.insert(frame.clone(), NestedValue::Object(values));
+                        }
+                        attributes.insert(attr_name.clone(), NestedValue::Object(frames));
+                    }
+                    let command = Command {
+                        kind: CommandType::Add,
+                        object_kind: ObjectKind::Overlay(
+                            overlay.overlay_type().clone(),
+                            Content {
+                                attributes: Some(attributes),
+                                properties: Some(properties),
+                            },
+                        ),
+                    };
+                    ast.commands.push(command);
+                }
                 _ => {}
             }
         });
-- 
2.43.0


From ec618c60ca1c1761594e29a0f0b83d823bfdd6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:03 +0000
Subject: [PATCH 22/58] fix: keep plain command values that look like
 references when reading commands back

---
 semantics/oca-ast/src/ast/mod.rs | 83 ++++++++++++++++++++++++++++++--
 1 file changed, 80 insertions(+), 3 deletions(-)

diff --git a/semantics/oca-ast/src/ast/mod.rs b/semantics/oca-ast/src/ast/mod.rs
index e04a503..eb278a6 100644
--- a/semantics/oca-ast/src/ast/mod.rs
+++ b/semantics/oca-ast/src/ast/mod.rs
@@ -421,6 +421,79 @@ impl NestedValue {
     }
 }
 
+/// Value of a command as read from JSON. A text which merely looks like a reference is the
+/// same in JSON as a reference, so which one it is depends on where in a command it occurs.
+#[derive(Deserialize)]
+#[serde(untagged)]
+enum PlainValue {
+    Value(String),
+    Object(IndexMap<String, PlainValue>),
+    Array(Vec<PlainValue>),
+}
+
+impl From<PlainValue> for NestedValue {
+    fn from(value: PlainValue) -> Self {
+        match value {
+            PlainValue::Value(value) => NestedValue::Value(value),
+            PlainValue::Object(object) => NestedValue::Object(plain_map(object)),
+            PlainValue::Array(array) => {
+                NestedValue::Array(array.into_iter().map(Into::into).collect())
+            }
+        }
+    }
+}
+
+fn plain_map(
+    map: IndexMap<String, PlainValue>,
+) -> IndexMap<String, NestedValue> {
+    map.into_iter().map(|(k, v)| (k, v.into())).collect()
+}
+
+#[derive(Deserialize)]
+struct PlainCaptureContent {
+    attributes: Option<IndexMap<String, NestedAttrType>>,
+    properties: Option<IndexMap<String, PlainValue>>,
+    flagged_attributes: Option<Vec<String>>,
+}
+
+impl From<PlainCaptureContent> for CaptureContent {
+    fn from(content: PlainCaptureContent) -> Self {
+        CaptureContent {
+            attributes: content.attributes,
+            properties: content.properties.map(plain_map),
+            flagged_attributes: content.flagged_attributes,
+        }
+    }
+}
+
+#[derive(Deserialize)]
+struct PlainContent {
+    attributes: Option<IndexMap<String, PlainValue>>,
+    properties: Option<IndexMap<String, PlainValue>>,
+}
+
+impl PlainContent {
+    /// Only the target of a link is a reference.
+    fn into_content(self, overlay_type: &OverlayType) -> Content {
+        let mut properties = self.properties.map(plain_map);
+        if let (OverlayType::Link(_), Some(properties)) =
+            (overlay_type, &mut properties)
+        {
+            if let Some(target) = properties.get_mut("target") {
+                if let NestedValue::Value(value) = &*target {
+                    if let Ok(reference) = value.parse() {
+                        *target = NestedValue::Reference(reference);
+                    }
+                }
+            }
+        }
+        Content {
+            attributes: self.attributes.map(plain_map),
+            properties,
+        }
+    }
+}
+
 #[derive(Debug, PartialEq, Clone, Hash, Eq)]
 pub enum RefValue {
     Said(said::SelfAddressingIdentifier),
@@ -562,10 +635,12 @@ impl<'de> Deserialize<'de> for Command {
                                     // properly
                                     let _content_key: Option<String> =
                                         map.next_key()?;
-                                    let content: CaptureContent =
+                                    let content: PlainCaptureContent =
                                         map.next_value()?;
                                     object_kind =
-                                        Some(ObjectKind::CaptureBase(content));
+                                        Some(ObjectKind::CaptureBase(
+                                            content.into(),
+                                        ));
                                 }
                                 "OCABundle" => {
                                     // take the key frist otherwise next value would not work
@@ -588,8 +663,10 @@ impl<'de> Deserialize<'de> for Command {
                                     );
                                     match overlay_type {
                                         Ok(overlay_type) => {
-                                            let content: Content =
+                                            let content: PlainContent =
                                                 map.next_value()?;
+                                            let content = content
+                                                .into_content(&overlay_type);
                                             object_kind =
                                                 Some(ObjectKind::Overlay(
                                                     overlay_type,
-- 
2.43.0


From 9ba27a31439a6e645ea4731da6216f4e0cb034a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:30 +0000
Subject: [PATCH 23/58] fix: do not take text inside commands and values for
 header lines

---
 oca-file/src/ocafile.pest | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/oca-file/src/ocafile.pest b/oca-file/src/ocafile.pest
index 626ef22..6e011e4 100644
--- a/oca-file/src/ocafile.pest
+++ b/oca-file/src/ocafile.pest
@@ -54,8 +54,13 @@ TELUGU | THAANA | THAI | TIBETAN | TIFINAGH | TIRHUTA | TOTO | UGARITIC | VAI |
 VITHKUQI | WANCHO | WARANG_CITI | YEZIDI | YI | ZANABAZAR_SQUARE }
 char = { LETTER | NUMBER | "." | "-" | "_" | "/" | ":" | SCRIPTS }
 
+// any other line, skipped as a whole together with the quoted values in it, so that
+// what stands inside a line or a value is not taken for a meta comment
+quoted_value = _{ ("=" | ":" | "," | "[" | "{") ~ arg_ws? ~ (single_quoted_string | double_quoted_string) }
+content_line = _{ (quoted_value | !NEWLINE ~ ANY)+ ~ NEWLINE? }
+
 file = {
   SOI ~
-  (empty_line | meta_comment_line | comment_line | ANY)*
+  (empty_line | meta_comment_line | comment_line | content_line | NEWLINE)*
   ~ EOI
 }
-- 
2.43.0


From a5bca19ccf97ae2913e20b7aa4db0d8a213902ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:23 +0000
Subject: [PATCH 24/58] fix: parse escapes in a value without recursion

---
 oca-file/src/ocafile.pest                | 4 ++--
 semantics/oca-file/src/ocafile.pest      | 4 ++--
 transformation/oca-file/src/ocafile.pest | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/oca-file/src/ocafile.pest b/oca-file/src/ocafile.pest
index 6e011e4..659ec90 100644
--- a/oca-file/src/ocafile.pest
+++ b/oca-file/src/ocafile.pest
@@ -21,9 +21,9 @@ commands = _{
 
 string = ${ single_quoted_string | double_quoted_string }
 single_quoted_string = _{ "'" ~ single_quoted_inner ~ "'" }
-single_quoted_inner  = @{ (!("'" | "\\" | "\u{0000}" | "\u{001F}") ~ ANY)* ~ (escape ~ single_quoted_inner)? }
+single_quoted_inner  = @{ (!("'" | "\\" | "\u{0000}" | "\u{001F}") ~ ANY | escape)* }
 double_quoted_string  = _{ "\"" ~ inner ~ "\"" }
-inner   = @{ (!("\"" | "\\" | "\u{0000}" | "\u{001F}") ~ ANY)* ~ (escape ~ inner)? }
+inner   = @{ (!("\"" | "\\" | "\u{0000}" | "\u{001F}") ~ ANY | escape)* }
 escape  = @{ "\\" ~ ("b" | "t" | "n" | "f" | "r" | "\"" | "\\" | "'" | unicode | NEWLINE)? }
 unicode = @{ "u" ~ ASCII_HEX_DIGIT{4} | "U" ~ ASCII_HEX_DIGIT{8} }
 
diff --git a/semantics/oca-file/src/ocafile.pest b/semantics/oca-file/src/ocafile.pest
index 6924889..13763f7 100644
--- a/semantics/oca-file/src/ocafile.pest
+++ b/semantics/oca-file/src/ocafile.pest
@@ -15,12 +15,12 @@ comment_line = _{ ws* ~ comment ~ NEWLINE? }
 empty_line = @{ ws* ~ NEWLINE }
 
 double_quoted_string  = _{ "\"" ~ inner ~ "\"" }
-inner   = @{ (!("\"" | "\\" | "\u{0000}" | "\u{001F}") ~ ANY)* ~ (escape ~ inner)? }
+inner   = @{ (!("\"" | "\\" | "\u{0000}" | "\u{001F}") ~ ANY | escape)* }
 escape  = @{ "\\" ~ ("b" | "t" | "n" | "f" | "r" | "\"" | "\\" | "'" | unicode | NEWLINE)? }
 unicode = @{ "u" ~ ASCII_HEX_DIGIT{4} | "U" ~ ASCII_HEX_DIGIT{8} }
 
 single_quoted_string = _{ "'" ~ single_quoted_inner ~ "'" }
-single_quoted_inner  = @{ (!("'" | "\\" | "\u{0000}" | "\u{001F}") ~ ANY)* ~ (escape ~ single_quoted_inner)? }
+single_quoted_inner  = @{ (!("'" | "\\" | "\u{0000}" | "\u{001F}") ~ ANY | escape)* }
 
 string = ${ single_quoted_string | double_quoted_string }
 
diff --git a/transformation/oca-file/src/ocafile.pest b/transformation/oca-file/src/ocafile.pest
index 2a7119e..b6627ea 100644
--- a/transformation/oca-file/src/ocafile.pest
+++ b/transformation/oca-file/src/ocafile.pest
@@ -15,12 +15,12 @@ comment_line = _{ ws* ~ comment ~ NEWLINE? }
 empty_line = @{ ws* ~ NEWLINE }
 
 double_quoted_string  = _{ "\"" ~ inner ~ "\"" }
-inner   = @{ (!("\"" | "\\" | "\u{0000}" | "\u{001F}") ~ ANY)* ~ (escape ~ inner)? }
+inner   = @{ (!("\"" | "\\" | "\u{0000}" | "\u{001F}") ~ ANY | escape)* }
 escape  = @{ "\\" ~ ("b" | "t" | "n" | "f" | "r" | "\"" | "\\" | "'" | unicode | NEWLINE)? }
 unicode = @{ "u" ~ ASCII_HEX_DIGIT{4} | "U" ~ ASCII_HEX_DIGIT{8} }
 
 single_quoted_string = _{ "'" ~ single_quoted_inner ~ "'" }
-single_quoted_inner  = @{ (!("'" | "\\" | "\u{0000}" | "\u{001F}") ~ ANY)* ~ (escape ~ single_quoted_inner)? }
+single_quoted_inner  = @{ (!("'" | "\\" | "\u{0000}" | "\u{001F}") ~ ANY | escape)* }
 
 string = ${ single_quoted_string | double_quoted_string }
 
-- 
2.43.0


From 85e237e50fef0bf28bedd5f10207ea7df2a4da39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:53 +0000
Subject: [PATCH 25/58] fix: reject types and framings nested too deep instead
 of overflowing the stack

---
 semantics/oca-file/src/ocafile.pest           |  9 +++-
 .../src/ocafile/instructions/helpers.rs       | 41 +++++++++++++++----
 2 files changed, 39 insertions(+), 11 deletions(-)

diff --git a/semantics/oca-file/src/ocafile.pest b/semantics/oca-file/src/ocafile.pest
index 13763f7..f50ec8d 100644
--- a/semantics/oca-file/src/ocafile.pest
+++ b/semantics/oca-file/src/ocafile.pest
@@ -186,7 +186,10 @@ attr_framing_key_pairs = ${ arg_ws* ~ attr_framing_key_pair ~ (arg_ws | NEWLINE)
 
 url = ${ string }
 json_key = ${ string }
-json_value = ${ string | url | json_object }
+json_inner_value = ${ string | url }
+json_inner_pair = ${ json_key ~ arg_ws* ~ ":" ~ (arg_ws | NEWLINE)? ~ json_inner_value ~ (arg_ws? ~ "," ~ (arg_ws | NEWLINE)?)? }
+json_inner_object = ${ "{" ~ ((arg_ws | NEWLINE)? ~ arg_ws* ~ json_inner_pair ~ (arg_ws | NEWLINE)?)+ ~ arg_ws* ~ "}" }
+json_value = ${ json_inner_object }
 json_pair = ${ json_key ~ arg_ws* ~ ":" ~ (arg_ws | NEWLINE)? ~ json_value ~ (arg_ws? ~ "," ~ (arg_ws | NEWLINE)?)? }
 json_object = ${ "{" ~ ((arg_ws | NEWLINE)? ~ arg_ws* ~ json_pair ~ (arg_ws | NEWLINE)?)+ ~ arg_ws* ~ "}" }
 
@@ -239,7 +242,9 @@ base_attr_type = @{ ("Text" |
         "Binary" |
         "DateTime" )}
 
-array_attr_type = ${( "Array["~ arg_ws? ~ (base_attr_type | reference_type | array_attr_type ) ~ arg_ws? ~"]" )}
+array_open = ${ "Array[" ~ arg_ws? }
+array_close = ${ arg_ws? ~ "]" }
+array_attr_type = ${ array_open+ ~ (base_attr_type | reference_type) ~ array_close+ }
 reference_type = _{ ref_said | ref_alias }
 alias = @{ char+ }
 said = @{ char+ }
diff --git a/semantics/oca-file/src/ocafile/instructions/helpers.rs b/semantics/oca-file/src/ocafile/instructions/helpers.rs
index cf82496..d7eebb0 100644
--- a/semantics/oca-file/src/ocafile/instructions/helpers.rs
+++ b/semantics/oca-file/src/ocafile/instructions/helpers.rs
@@ -10,14 +10,37 @@ use oca_ast_semantics::ast::{
 use recursion::ExpandableExt;
 use said::SelfAddressingIdentifier;
 
+/// Deeper arrays could not be read back from JSON.
+const MAX_ARRAY_DEPTH: usize = 100;
+
 fn extract_attr_type(input: Pair) -> Result<NestedAttrType, ExtractingAttributeError> {
-    let res = AttributeTypeResult::expand_frames(input, |seed| match seed.as_rule() {
-        Rule::array_attr_type => match seed.into_inner().next() {
-            Some(next) => NestedAttrTypeFrame::Array(next).into(),
-            None => {
-                ExtractingAttributeError::Unexpected("Missing attribute type".to_string()).into()
+    if input.as_rule() == Rule::array_attr_type {
+        let mut depth = 0;
+        let mut closed = 0;
+        let mut attr_type = NestedAttrType::Null;
+        for item in input.into_inner() {
+            match item.as_rule() {
+                Rule::array_open => depth += 1,
+                Rule::array_close => closed += 1,
+                _ => attr_type = extract_attr_type(item)?,
             }
-        },
+        }
+        if depth != closed {
+            return Err(ExtractingAttributeError::Unexpected(
+                "Unbalanced brackets in array type".to_string(),
+            ));
+        }
+        if depth > MAX_ARRAY_DEPTH {
+            return Err(ExtractingAttributeError::Unexpected(format!(
+                "Arrays nested deeper than {MAX_ARRAY_DEPTH}"
+            )));
+        }
+        for _ in 0..depth {
+            attr_type = NestedAttrType::Array(Box::new(attr_type));
+        }
+        return Ok(attr_type);
+    }
+    let res = AttributeTypeResult::expand_frames(input, |seed| match seed.as_rule() {
         Rule::alias => NestedAttrTypeFrame::Reference(oca_ast_semantics::ast::RefValue::Name(
             seed.as_str().to_string(),
         ))
@@ -298,7 +321,7 @@ pub fn extract_json_object(object: Pair) -> NestedValue {
     let mut json_object = IndexMap::new();
     for item in object.into_inner() {
         match item.as_rule() {
-            Rule::json_pair => {
+            Rule::json_pair | Rule::json_inner_pair => {
                 let mut key = String::new();
                 let mut value = NestedValue::Value(String::new());
                 for el in item.clone().into_inner() {
@@ -316,7 +339,7 @@ pub fn extract_json_object(object: Pair) -> NestedValue {
                                 .as_str()
                                 .to_lowercase();
                         }
-                        Rule::json_value => {
+                        Rule::json_value | Rule::json_inner_value => {
                             if let Some(nested_item) = el.clone().into_inner().next() {
                                 match nested_item.as_rule() {
                                     Rule::string => {
@@ -331,7 +354,7 @@ pub fn extract_json_object(object: Pair) -> NestedValue {
                                                 .to_string(),
                                         );
                                     }
-                                    Rule::json_object => {
+                                    Rule::json_inner_object => {
                                         value = extract_json_object(nested_item);
                                     }
                                     _ => {
-- 
2.43.0


From c7f10bf80f5fb2d570b4fdcc617ba770e0516dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:02 +0000
Subject: [PATCH 26/58] fix: a framing without predicate or justification is an
 error

---
 semantics/oca-bundle/src/build.rs | 33 ++++++++++++++-----------------
 1 file changed, 15 insertions(+), 18 deletions(-)

diff --git a/semantics/oca-bundle/src/build.rs b/semantics/oca-bundle/src/build.rs
index c1f9a05..04bf339 100644
--- a/semantics/oca-bundle/src/build.rs
+++ b/semantics/oca-bundle/src/build.rs
@@ -548,24 +548,21 @@ pub fn apply_command(base: Option<OCABox>, op: ast::Command) -> Result<OCABox, V
                             if let ast::NestedValue::Object(attr_framing) = attr_framing_value {
                                 let mut framing = HashMap::new();
                                 for (framing_key, framing_value) in attr_framing {
-                                    if let ast::NestedValue::Object(framing_value) = framing_value {
-                                        if let Some(ast::NestedValue::Value(predicate_id)) =
-                                            framing_value.get("predicate_id")
-                                        {
-                                            if let Some(ast::NestedValue::Value(
-                                                framing_justification,
-                                            )) = framing_value.get("framing_justification")
-                                            {
-                                                let framing_scope = FramingScope {
-                                                    predicate_id: predicate_id.to_string(),
-                                                    framing_justification: framing_justification
-                                                        .to_string(),
-                                                    frame_meta: frame_meta.clone(),
-                                                };
-                                                framing.insert(framing_key.clone(), framing_scope);
-                                            }
-                                        }
-                                    }
+                                    let scope_value = |name: &str| match framing_value {
+                                        ast::NestedValue::Object(scope) => match scope.get(name) {
+                                            Some(ast::NestedValue::Value(value)) => Ok(value.clone()),
+                                            _ => Err(format!("Undefined {name} of {framing_key}")),
+                                        },
+                                        _ => Err(format!("Invalid framing of {framing_key}")),
+                                    };
+                                    let framing_scope = FramingScope {
+                                        predicate_id: scope_value("predicate_id")
+                                            .map_err(|e| vec![e])?,
+                                        framing_justification: scope_value("framing_justification")
+                                            .map_err(|e| vec![e])?,
+                                        frame_meta: frame_meta.clone(),
+                                    };
+                                    framing.insert(framing_key.clone(), framing_scope);
                                 }
                                 attribute.set_framing(frame_id.clone(), framing.clone());
                             }
-- 
2.43.0


From 831102e974b822c16cb1cdf01b46f50ee27e1c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:00 +0000
Subject: [PATCH 27/58] fix: a comment or blank line inside a continued command
 is not part of the command

---
 oca-file/src/ocafile.pest                | 4 +++-
 semantics/oca-file/src/ocafile.pest      | 6 ++++--
 transformation/oca-file/src/ocafile.pest | 6 ++++--
 3 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/oca-file/src/ocafile.pest b/oca-file/src/ocafile.pest
index 659ec90..95224f8 100644
--- a/oca-file/src/ocafile.pest
+++ b/oca-file/src/ocafile.pest
@@ -2,9 +2,11 @@
 
 // insignificant whitespace, not repeated
 ws = _{ " " | "\t" }
-arg_ws = _{ (ws | line_continuation ~ (comment_line | empty_line)*)+ }
+arg_ws = _{ (ws | line_continuation ~ skipped_line*)+ }
 // a line continuation, allowing an instruction to continue onto a new line
 line_continuation = _{ "\\" ~ ws* ~ NEWLINE }
+// a comment or blank line after a line continuation, no part of the instruction
+skipped_line = _{ ws* ~ ("#" ~ (!NEWLINE ~ ANY)* ~ NEWLINE? | NEWLINE) }
 comment = @{ "#" ~ (!NEWLINE ~ ANY)* }
 comment_line = _{ ws* ~ comment ~ NEWLINE? }
 empty_line = @{ ws* ~ NEWLINE }
diff --git a/semantics/oca-file/src/ocafile.pest b/semantics/oca-file/src/ocafile.pest
index f50ec8d..245ec1a 100644
--- a/semantics/oca-file/src/ocafile.pest
+++ b/semantics/oca-file/src/ocafile.pest
@@ -26,13 +26,15 @@ string = ${ single_quoted_string | double_quoted_string }
 
 // a line continuation, allowing an instruction to continue onto a new line
 line_continuation = _{ "\\" ~ ws* ~ NEWLINE }
+// a comment or blank line after a line continuation, no part of the instruction
+skipped_line = _{ ws* ~ ("#" ~ (!NEWLINE ~ ANY)* ~ NEWLINE? | NEWLINE) }
 
 // whitespace that may appear between instruction arguments
 // this allows instructions to expand past a newline if escaped
-arg_ws = _{ (ws | line_continuation ~ (comment_line | empty_line)*)+ }
+arg_ws = _{ (ws | line_continuation ~ skipped_line*)+ }
 
 // like arg_ws, but where whitespace is optional
-arg_ws_maybe = _{ (ws | line_continuation ~ (comment_line | empty_line)*)* }
+arg_ws_maybe = _{ (ws | line_continuation ~ skipped_line*)* }
 
 // continues consuming input beyond a newline, if the newline is preceeded by an
 // escape (\)
diff --git a/transformation/oca-file/src/ocafile.pest b/transformation/oca-file/src/ocafile.pest
index b6627ea..652941d 100644
--- a/transformation/oca-file/src/ocafile.pest
+++ b/transformation/oca-file/src/ocafile.pest
@@ -26,13 +26,15 @@ string = ${ single_quoted_string | double_quoted_string }
 
 // a line continuation, allowing an instruction to continue onto a new line
 line_continuation = _{ "\\" ~ ws* ~ NEWLINE }
+// a comment or blank line after a line continuation, no part of the instruction
+skipped_line = _{ ws* ~ ("#" ~ (!NEWLINE ~ ANY)* ~ NEWLINE? | NEWLINE) }
 
 // whitespace that may appear between instruction arguments
 // this allows instructions to expand past a newline if escaped
-arg_ws = _{ (ws | line_continuation ~ (comment_line | empty_line)*)+ }
+arg_ws = _{ (ws | line_continuation ~ skipped_line*)+ }
 
 // like arg_ws, but where whitespace is optional
-arg_ws_maybe = _{ (ws | line_continuation ~ (comment_line | empty_line)*)* }
+arg_ws_maybe = _{ (ws | line_continuation ~ skipped_line*)* }
 
 // continues consuming input beyond a newline, if the newline is preceeded by an
 // escape (\)
-- 
2.43.0


From 712592da5c8e95f42f441d0a0096455d667b37a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:00 +0000
Subject: [PATCH 28/58] fix: spaces at the end of a file without final newline
 are accepted

---
 semantics/oca-file/src/ocafile.pest      | 2 +-
 transformation/oca-file/src/ocafile.pest | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/semantics/oca-file/src/ocafile.pest b/semantics/oca-file/src/ocafile.pest
index 245ec1a..75f0865 100644
--- a/semantics/oca-file/src/ocafile.pest
+++ b/semantics/oca-file/src/ocafile.pest
@@ -263,5 +263,5 @@ lang = ${ ASCII_ALPHA{2} ~ ("-" ~ ASCII_ALPHA{2})? }
 file = {
   SOI ~
   (empty_line | meta_comment_line | comment_line | commands)*
-  ~ EOI
+  ~ ws* ~ EOI
 }
diff --git a/transformation/oca-file/src/ocafile.pest b/transformation/oca-file/src/ocafile.pest
index 652941d..1f27621 100644
--- a/transformation/oca-file/src/ocafile.pest
+++ b/transformation/oca-file/src/ocafile.pest
@@ -141,5 +141,5 @@ lang = ${ ASCII_ALPHA{2} ~ ("-" ~ ASCII_ALPHA{2})? }
 file = {
   SOI ~
   (empty_line | meta_comment_line | comment_line | commands)*
-  ~ EOI
+  ~ ws* ~ EOI
 }
-- 
2.43.0


From 116288370b21d3fc35b8529f03ee06851fc32d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:00 +0000
Subject: [PATCH 29/58] fix: a tab or a line continuation ends an unquoted unit
 value

---
 semantics/oca-file/src/ocafile.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/semantics/oca-file/src/ocafile.pest b/semantics/oca-file/src/ocafile.pest
index 75f0865..2f2d8f4 100644
--- a/semantics/oca-file/src/ocafile.pest
+++ b/semantics/oca-file/src/ocafile.pest
@@ -213,7 +213,7 @@ key_pair = @{ attr_key ~ arg_ws? ~ "=" ~ arg_ws? ~ key_value }
 attr_key_pairs = ${ (arg_ws? ~ key_pair ~ arg_ws?)+ }
 prop_key_pairs = ${ (arg_ws? ~ key_pair ~ arg_ws?)+ }
 
-unit_char = ${ !" " ~ !NEWLINE ~ ANY }
+unit_char = ${ !ws ~ !line_continuation ~ !NEWLINE ~ ANY }
 unit_value = ${ string | unit_char+ }
 unit_key_pair = @{ attr_key ~ arg_ws? ~ "=" ~ arg_ws? ~ unit_value }
 unit_attr_key_pairs = ${ (arg_ws? ~ unit_key_pair ~ arg_ws?)+ }
-- 
2.43.0


From 07c5f4d28720e4389975381a2da6ad2987302d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:00 +0000
Subject: [PATCH 30/58] fix: spaces around '=' are accepted in ADD ENTRY and
 ADD ENTRY_CODE

---
 semantics/oca-file/src/ocafile.pest | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/semantics/oca-file/src/ocafile.pest b/semantics/oca-file/src/ocafile.pest
index 2f2d8f4..1ad768c 100644
--- a/semantics/oca-file/src/ocafile.pest
+++ b/semantics/oca-file/src/ocafile.pest
@@ -224,7 +224,7 @@ entry_code_group_key = ${ string }
 entry_code_key_value_pair = { entry_code_group_key ~ ":" ~ " "* ~ entry_code_list }
 
 entry_code_key_value = { key_value | entry_code_list | entry_code_object }
-entry_code_key_pair = ${ attr_key ~ "=" ~ entry_code_key_value }
+entry_code_key_pair = ${ attr_key ~ arg_ws? ~ "=" ~ arg_ws? ~ entry_code_key_value }
 attr_entry_code_key_pairs = ${ (arg_ws? ~ entry_code_key_pair ~ arg_ws?)+ }
 
 entry_value = ${ string }
@@ -232,7 +232,7 @@ entry_key = ${ string }
 entry_object = { "{" ~ "}" | "{" ~ " "* ~ entry_key_value_pair ~ ("," ~ " "* ~ entry_key_value_pair)* ~ " "* ~ "}" }
 entry_key_value = { key_value | entry_object }
 entry_key_value_pair = { entry_key ~ ":" ~ " "* ~ entry_value }
-entry_key_pair = ${ attr_key ~ "=" ~ entry_key_value }
+entry_key_pair = ${ attr_key ~ arg_ws? ~ "=" ~ arg_ws? ~ entry_key_value }
 attr_entry_key_pairs = ${ (arg_ws? ~ entry_key_pair ~ arg_ws?)+ }
 
 list_value = ${ (arg_ws? ~ key_value ~ arg_ws?)+ }
-- 
2.43.0


From 581915317f14debc4d11233e4becc7ca27ccac2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:48 +0000
Subject: [PATCH 31/58] fix: a transformation without source, target or
 commands is an error, not a panic

---
 .../transformation-file/src/build.rs          | 48 ++++++++++++-------
 1 file changed, 32 insertions(+), 16 deletions(-)

diff --git a/transformation/transformation-file/src/build.rs b/transformation/transformation-file/src/build.rs
index 2d7ce1a..49a08fb 100644
--- a/transformation/transformation-file/src/build.rs
+++ b/transformation/transformation-file/src/build.rs
@@ -25,22 +25,24 @@ pub enum Error {
 pub fn from_ast(ast: &ast::TransformationAST) -> Result<Transformation, Vec<Error>> {
     let mut errors = vec![];
 
+    let default_command_meta = ast::CommandMeta {
+        line_number: 0,
+        raw_line: "unknown".to_string(),
+    };
     let mut base: Option<Transformation> = None;
     if !ast.meta.is_empty() {
-        let source = ast.meta.get("source").expect("missing source meta");
-        let source_said = source.replace("refs:", "");
-        let target = ast.meta.get("target").expect("missing target meta");
-        let target_said = target.replace("refs:", "");
         let mut transformation = Transformation::new();
-        transformation.set_source(source_said);
-        transformation.set_target(target_said);
+        match ast.meta.get("source") {
+            Some(source) => transformation.set_source(source.replace("refs:", "")),
+            None => errors.push(header_error(&default_command_meta, "Missing source meta")),
+        }
+        match ast.meta.get("target") {
+            Some(target) => transformation.set_target(target.replace("refs:", "")),
+            None => errors.push(header_error(&default_command_meta, "Missing target meta")),
+        }
         base = Some(transformation)
     }
 
-    let default_command_meta = ast::CommandMeta {
-        line_number: 0,
-        raw_line: "unknown".to_string(),
-    };
     for (i, command) in ast.commands.iter().enumerate() {
         let command_index = i;
         // todo pass the references
@@ -61,12 +63,26 @@ pub fn from_ast(ast: &ast::TransformationAST) -> Result<Transformation, Vec<Erro
             }
         }
     }
-    if errors.is_empty() {
-        let mut transformation = base.unwrap().clone();
-        transformation.fill_said();
-        Ok(transformation)
-    } else {
-        Err(errors)
+    if !errors.is_empty() {
+        return Err(errors);
+    }
+    match base {
+        Some(mut transformation) => {
+            transformation.fill_said();
+            Ok(transformation)
+        }
+        None => Err(vec![header_error(
+            &default_command_meta,
+            "No commands to build from",
+        )]),
+    }
+}
+
+fn header_error(meta: &ast::CommandMeta, message: &str) -> Error {
+    Error::FromASTError {
+        line_number: meta.line_number,
+        raw_line: meta.raw_line.clone(),
+        message: message.to_string(),
     }
 }
 
-- 
2.43.0


From 20a618d450204c09faa4418f4476fc797cf1a374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:10 +0000
Subject: [PATCH 32/58] fix: printing a command with properties only leaves no
 empty ATTRS

---
 semantics/oca-file/src/ocafile/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/semantics/oca-file/src/ocafile/mod.rs b/semantics/oca-file/src/ocafile/mod.rs
index 46f9499..31fe948 100644
--- a/semantics/oca-file/src/ocafile/mod.rs
+++ b/semantics/oca-file/src/ocafile/mod.rs
@@ -502,7 +502,9 @@ pub fn generate_from_ast(ast: &OCAAst) -> String {
                                         });
                                     }
                                 }
-                                if let Some(ref attributes) = content.attributes {
+                                if let Some(attributes) =
+                                    content.attributes.as_ref().filter(|attrs| !attrs.is_empty())
+                                {
                                     line.push_str("ATTRS");
                                     attributes.iter().for_each(|(key, value)| {
                                         if let ast::NestedValue::Value(value) = value {
-- 
2.43.0


From 0b4e0ccf712bbc9a5f76bfe1ebdc0490cff8842e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:31 +0000
Subject: [PATCH 33/58] fix: a build stores what it refers to before the
 reference, and binds the name last

---
 oca/src/facade/build.rs | 91 +++++++++++++++++++++++++++--------------
 1 file changed, 60 insertions(+), 31 deletions(-)

diff --git a/oca/src/facade/build.rs b/oca/src/facade/build.rs
index 4913cda..42177f9 100644
--- a/oca/src/facade/build.rs
+++ b/oca/src/facade/build.rs
@@ -123,10 +123,8 @@ impl Facade {
     }
 
     pub fn build(&mut self, oca_build: &OCABuild) -> Result<OCABundle, Error> {
-        self.build_cache(&oca_build.oca_bundle);
-
-        self.build_meta(&oca_build.oca_bundle);
-
+        // what refers to an object is stored after the object, so that an interrupted build
+        // leaves nothing behind that can be found but not retrieved
         oca_build
             .steps
             .iter()
@@ -136,6 +134,10 @@ impl Facade {
 
         self.build_models(oca_build);
 
+        self.build_cache(&oca_build.oca_bundle);
+
+        self.build_meta(&oca_build.oca_bundle);
+
         Ok(oca_build.oca_bundle.clone())
     }
 
@@ -145,11 +147,26 @@ impl Facade {
         match ast {
             oca_file::ocafile::OCAAst::TransformationAst(_) => Err(Error::Deprecated),
             oca_file::ocafile::OCAAst::SemanticsAst(_ast) => {
-                let oca_build = self
-                    .validate_ocafile(ocafile)
-                    .map_err(Error::ValidationError)?;
+                #[cfg(not(feature = "local-references"))]
+                {
+                    let oca_build = self
+                        .validate_ocafile(ocafile)
+                        .map_err(Error::ValidationError)?;
 
-                self.build(&oca_build)
+                    self.build(&oca_build)
+                }
+                #[cfg(feature = "local-references")]
+                {
+                    let (base, mut oca_ast) = Self::parse_and_check_base(self.storage(), ocafile)
+                        .map_err(Error::ValidationError)?;
+                    let oca_build = Self::dereference_and_build(base, &mut oca_ast, &self.db)
+                        .map_err(Error::ValidationError)?;
+
+                    let oca_bundle = self.build(&oca_build)?;
+                    // the name refers to the bundle only once the bundle is stored
+                    Self::save_reference(&oca_ast, &oca_bundle, &mut self.db);
+                    Ok(oca_bundle)
+                }
             }
         }
     }
@@ -256,26 +273,38 @@ impl Facade {
         base: Option<OCABundle>,
         mut oca_ast: OCAAst,
         references: &mut R,
+    ) -> Result<OCABuild, Vec<ValidationError>> {
+        let oca_build = Self::dereference_and_build(base, &mut oca_ast, references)?;
+        Self::save_reference(&oca_ast, &oca_build.oca_bundle, references);
+        Ok(oca_build)
+    }
+
+    #[cfg(feature = "local-references")]
+    fn dereference_and_build<R: References>(
+        base: Option<OCABundle>,
+        oca_ast: &mut OCAAst,
+        references: &R,
     ) -> Result<OCABuild, Vec<ValidationError>> {
         // Dereference (refn -> refs) the AST before it start processing bundle steps, otherwise the SAID would
         // not match.
-        local_references::replace_refn_with_refs(&mut oca_ast, references).map_err(|e| vec![e])?;
+        local_references::replace_refn_with_refs(oca_ast, references).map_err(|e| vec![e])?;
 
-        let oca_build = oca_bundle_semantics::build::from_ast(base, &oca_ast).map_err(|e| {
+        oca_bundle_semantics::build::from_ast(base, oca_ast).map_err(|e| {
             e.iter()
                 .map(|e| ValidationError::OCABundleBuild(e.clone()))
                 .collect::<Vec<_>>()
-        })?;
+        })
+    }
 
+    #[cfg(feature = "local-references")]
+    fn save_reference<R: References>(oca_ast: &OCAAst, oca_bundle: &OCABundle, references: &mut R) {
         let schema_name = oca_ast.meta.get("name");
         debug!("Schema name found: {:?}", schema_name);
 
-        if schema_name.is_some() {
-            let schema_name = schema_name.unwrap();
-            let said = oca_build.oca_bundle.said.clone().unwrap().to_string();
-            references.save(schema_name, said.clone());
-        };
-        Ok(oca_build)
+        if let Some(schema_name) = schema_name {
+            let said = oca_bundle.said.clone().unwrap().to_string();
+            references.save(schema_name, said);
+        }
     }
 
     fn build_cache(&self, oca_bundle: &OCABundle) {
@@ -335,20 +364,6 @@ impl Facade {
         let command_str = serde_json::to_string(&step.command).unwrap();
         input.extend(command_str.as_bytes());
         let result_bundle = step.result.clone();
-        // the history of a bundle is how it was first reached; reaching it again, by a command
-        // without effect or by undoing one, must not make the history refer to itself
-        let operation_key = format!("oca.{}.operation", result_bundle.said.clone().unwrap());
-        if self
-            .db
-            .get(Namespace::OCA, &operation_key)
-            .unwrap()
-            .is_none()
-        {
-            self.db
-                .insert(Namespace::OCA, &operation_key, &input)
-                .unwrap();
-        }
-
         let code = HashFunctionCode::Blake3_256;
         let format = SerializationFormats::JSON;
         self.db_cache
@@ -376,6 +391,20 @@ impl Facade {
                 )
                 .unwrap();
         });
+
+        // the history of a bundle is how it was first reached; reaching it again, by a command
+        // without effect or by undoing one, must not make the history refer to itself
+        let operation_key = format!("oca.{}.operation", result_bundle.said.clone().unwrap());
+        if self
+            .db
+            .get(Namespace::OCA, &operation_key)
+            .unwrap()
+            .is_none()
+        {
+            self.db
+                .insert(Namespace::OCA, &operation_key, &input)
+                .unwrap();
+        }
     }
 
     fn build_models(&mut self, oca_build: &OCABuild) {
-- 
2.43.0


From f8f84b24e731c0252e3429dbbcc73a06603baffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:42 +0000
Subject: [PATCH 34/58] fix: objects of intermediate steps can be fetched, and
 exploring something else than an identifier finds nothing

---
 oca/src/facade/explore.rs |  4 ++++
 oca/src/facade/fetch.rs   | 34 +++++++++++++++++++++++++++++++++-
 2 files changed, 37 insertions(+), 1 deletion(-)

diff --git a/oca/src/facade/explore.rs b/oca/src/facade/explore.rs
index 096669c..84b5984 100644
--- a/oca/src/facade/explore.rs
+++ b/oca/src/facade/explore.rs
@@ -1,13 +1,17 @@
 use crate::data_storage::Namespace;
 use oca_ast_semantics::ast::{BundleContent, CaptureContent, Content, ObjectKind, RefValue};
 use oca_bundle_semantics::state::oca::OCABundle;
+use said::SelfAddressingIdentifier;
 use serde::{ser::SerializeStruct, Serialize};
 use std::collections::HashSet;
+use std::str::FromStr;
 
 use super::Facade;
 
 impl Facade {
     pub fn explore(&self, said: String) -> Option<Relationship> {
+        // only identifiers have relations; other keys of the namespace hold other data
+        SelfAddressingIdentifier::from_str(&said).ok()?;
         let relations_u8_res = self.db.get(Namespace::OCARelations, &said);
 
         match relations_u8_res {
diff --git a/oca/src/facade/fetch.rs b/oca/src/facade/fetch.rs
index 0d63a5c..d783ec2 100644
--- a/oca/src/facade/fetch.rs
+++ b/oca/src/facade/fetch.rs
@@ -232,7 +232,14 @@ impl Facade {
                     errors.push(e.to_string());
                     errors.clone()
                 })?;
-            let o_type: ObjectKind = (*r_type.unwrap().first().unwrap()).into();
+            // objects of intermediate steps have no metadata, what they are is told by their type
+            let o_type = match r_type.as_ref().and_then(|r_type| r_type.first()) {
+                Some(o_type) => (*o_type).into(),
+                None => object_kind(&object_str).map_err(|e| {
+                    errors.push(e);
+                    errors.clone()
+                })?,
+            };
             match o_type {
                 ObjectKind::CaptureBase(_) => result.push(OCAObject::CaptureBase(
                     serde_json::from_str::<CaptureBase>(&object_str).map_err(|e| {
@@ -398,6 +405,31 @@ pub fn get_oca_bundle(
     }
 }
 
+fn object_kind(object_str: &str) -> Result<ObjectKind, String> {
+    let object: serde_json::Value = serde_json::from_str(object_str)
+        .map_err(|e| format!("Failed to parse OCA object: {}", e))?;
+    match object.get("type").and_then(|t| t.as_str()) {
+        Some(t) if t.starts_with("spec/capture_base/") => {
+            Ok(ObjectKind::CaptureBase(ast::CaptureContent {
+                attributes: None,
+                properties: None,
+                flagged_attributes: None,
+            }))
+        }
+        _ => serde_json::from_str::<DynOverlay>(object_str)
+            .map(|overlay| {
+                ObjectKind::Overlay(
+                    overlay.overlay_type().clone(),
+                    ast::Content {
+                        attributes: None,
+                        properties: None,
+                    },
+                )
+            })
+            .map_err(|e| format!("Failed to parse OCA object: {}", e)),
+    }
+}
+
 /// Retrive all existing references from given OCA Bundle
 ///
 /// # Arguments
-- 
2.43.0


From 5e2d1440d8de84233e89be4da187ab98e2f1f672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:13 +0000
Subject: [PATCH 35/58] fix: any search text and any page is answered instead
 of panicking

---
 .../repositories/capture_base_cache_repo.rs   |  3 +-
 oca/src/repositories/mod.rs                   |  9 +++
 oca/src/repositories/oca_bundle_cache_repo.rs |  3 +-
 oca/src/repositories/oca_bundle_fts_repo.rs   | 58 +++++++++++--------
 4 files changed, 47 insertions(+), 26 deletions(-)

diff --git a/oca/src/repositories/capture_base_cache_repo.rs b/oca/src/repositories/capture_base_cache_repo.rs
index e313e5b..964604f 100644
--- a/oca/src/repositories/capture_base_cache_repo.rs
+++ b/oca/src/repositories/capture_base_cache_repo.rs
@@ -1,5 +1,6 @@
 use oca_bundle_semantics::state::oca::capture_base::CaptureBase;
 
+use super::page_bounds;
 use crate::facade::Connection;
 
 #[derive(Debug)]
@@ -49,7 +50,7 @@ impl CaptureBaseCacheRepo {
     }
 
     pub fn fetch_all(&self, limit: usize, page: usize) -> Vec<AllCaptureBaseRecord> {
-        let offset = (page - 1) * limit;
+        let (limit, offset) = page_bounds(limit, page);
         let mut results = vec![];
         let query = "
         SELECT results.*, count.total
diff --git a/oca/src/repositories/mod.rs b/oca/src/repositories/mod.rs
index bbd565a..c523aff 100644
--- a/oca/src/repositories/mod.rs
+++ b/oca/src/repositories/mod.rs
@@ -38,3 +38,12 @@ impl SQLiteConfigBuilder {
         self.finalize().unwrap()
     }
 }
+
+/// LIMIT and OFFSET of a page; pages are counted from 1
+pub(crate) fn page_bounds(limit: usize, page: usize) -> (i64, i64) {
+    let bound = |n: usize| i64::try_from(n).unwrap_or(i64::MAX);
+    (
+        bound(limit),
+        bound(page.saturating_sub(1).saturating_mul(limit)),
+    )
+}
diff --git a/oca/src/repositories/oca_bundle_cache_repo.rs b/oca/src/repositories/oca_bundle_cache_repo.rs
index 85ce2f1..3390a42 100644
--- a/oca/src/repositories/oca_bundle_cache_repo.rs
+++ b/oca/src/repositories/oca_bundle_cache_repo.rs
@@ -1,6 +1,7 @@
 use oca_bundle_semantics::{state::oca::OCABundle, Encode};
 use said::{derivation::HashFunctionCode, sad::SerializationFormats};
 
+use super::page_bounds;
 use crate::facade::Connection;
 
 #[derive(Debug)]
@@ -52,7 +53,7 @@ impl OCABundleCacheRepo {
     }
 
     pub fn fetch_all(&self, limit: usize, page: usize) -> Vec<AllOCABundleRecord> {
-        let offset = (page - 1) * limit;
+        let (limit, offset) = page_bounds(limit, page);
         let mut results = vec![];
         let query = "
         SELECT results.*, count.total
diff --git a/oca/src/repositories/oca_bundle_fts_repo.rs b/oca/src/repositories/oca_bundle_fts_repo.rs
index 7d63b15..c48e9c7 100644
--- a/oca/src/repositories/oca_bundle_fts_repo.rs
+++ b/oca/src/repositories/oca_bundle_fts_repo.rs
@@ -2,6 +2,7 @@ use std::str::FromStr;
 
 use said::SelfAddressingIdentifier;
 
+use super::page_bounds;
 use crate::facade::Connection;
 
 #[derive(Debug)]
@@ -77,14 +78,20 @@ impl OCABundleFTSRepo {
         limit: usize,
         page: usize,
     ) -> SearchResult {
-        let offset = (page - 1) * limit;
-        let query = match language {
+        let (limit, offset) = page_bounds(limit, page);
+        let match_expression = |phrase: &str| match language {
             Some(lang) => {
                 let lang_code = isolang::Language::to_639_3(&lang).to_string();
-                format!("({{name description}}:{meta_query:} AND language_code:{lang_code:}) OR ({{name description}}:{meta_query:} NOT language_code:{lang_code:})")
+                format!("({{name description}}:{phrase} AND language_code:{lang_code:}) OR ({{name description}}:{phrase} NOT language_code:{lang_code:})")
             }
-            None => format!("{{name description}}:{meta_query:}"),
+            None => format!("{{name description}}:{phrase}"),
         };
+        // a query which is not a full-text search expression is searched for literally
+        let literal = format!("\"{}\"", meta_query.replace('"', "\"\""));
+        let queries = [
+            match_expression(&format!("({meta_query})")),
+            match_expression(&literal),
+        ];
 
         let sql_query = r#"
         SELECT results.*, count.total
@@ -132,22 +139,23 @@ impl OCABundleFTSRepo {
                 let mut snippet_regex = self.snippet.clone().unwrap();
                 snippet_regex = snippet_regex.replace("<mark>", "");
                 snippet_regex = snippet_regex.replace("</mark>", "");
-                let mut v: Vec<String> =
-                    snippet_regex.split("...").map(|x| x.to_string()).collect();
-                if v.first().unwrap().is_empty() {
+                let mut v: Vec<String> = snippet_regex.split("...").map(regex::escape).collect();
+                if v.first().is_some_and(|x| x.is_empty()) {
                     v.remove(0);
                     if let Some(x) = v.first_mut() {
                         *x = format!(".*{}", x);
                     }
                 }
-                if v.last().unwrap().is_empty() {
+                if v.last().is_some_and(|x| x.is_empty()) {
                     v.pop();
                     if let Some(x) = v.last_mut() {
                         *x = format!("{}.*", x);
                     }
                 }
                 snippet_regex = v.join("...");
-                let re = regex::Regex::new(&format!("(?m)^([^:]+):{snippet_regex:}$")).unwrap();
+                let Ok(re) = regex::Regex::new(&format!("(?m)^([^:]+):{snippet_regex:}$")) else {
+                    return String::new();
+                };
                 let hay = format!(
                     "\
 meta_overlay:{}
@@ -167,27 +175,29 @@ meta_overlay:{}
         let connection = self.connection.connection.lock().unwrap();
         let mut statement = connection.prepare(sql_query).unwrap();
 
-        let rows = statement
-            .query_map(
-                [query.clone(), limit.to_string(), offset.to_string()],
-                |row| {
+        let mut search = |query: &String| -> rusqlite::Result<Vec<Record>> {
+            statement
+                .query_map(rusqlite::params![query, limit, offset], |row| {
                     Ok(Record {
-                        name: row.get(0).unwrap(),
-                        description: row.get(1).unwrap(),
-                        oca_bundle_said: row.get(3).unwrap(),
-                        rank: row.get(4).unwrap(),
-                        total: row.get(7).unwrap(),
-                        snippet: row.get(5).unwrap(),
+                        name: row.get(0)?,
+                        description: row.get(1)?,
+                        oca_bundle_said: row.get(3)?,
+                        rank: row.get(4)?,
+                        total: row.get(7)?,
+                        snippet: row.get(5)?,
                     })
-                },
-            )
-            .unwrap();
+                })?
+                .collect()
+        };
+        let rows = queries
+            .iter()
+            .find_map(|query| search(query).ok())
+            .unwrap_or_default();
 
         let mut records = vec![];
         let mut total: usize = 0;
 
-        for row in rows {
-            let record = row.unwrap();
+        for record in rows {
             if total == 0 {
                 total = record.total as usize;
             }
-- 
2.43.0


From 16be4ba7891a8a7f1e20598dee9302bdc22a84d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:01 +0000
Subject: [PATCH 36/58] fix: core model records name the addressed link or
 framing overlay, the real parent, and overlays in order

---
 semantics/oca-dag/src/lib.rs | 64 ++++++++++++++++++++++++++++--------
 1 file changed, 51 insertions(+), 13 deletions(-)

diff --git a/semantics/oca-dag/src/lib.rs b/semantics/oca-dag/src/lib.rs
index 64b402b..3d950ac 100644
--- a/semantics/oca-dag/src/lib.rs
+++ b/semantics/oca-dag/src/lib.rs
@@ -2,6 +2,10 @@ pub mod data_storage;
 pub mod versioning;
 
 use oca_ast_semantics::ast;
+use oca_bundle_semantics::state::oca::overlay::{
+    attribute_framing::AttributeFramingOverlay, link::LinkOverlay,
+};
+use oca_bundle_semantics::state::oca::DynOverlay;
 use said::{derivation::HashFunction, SelfAddressingIdentifier};
 use std::collections::HashMap;
 use std::str::FromStr;
@@ -50,14 +54,12 @@ pub struct OCABundleModel {
 
 #[derive(Debug, Clone)]
 struct State {
-    oca_bundle: Option<SelfAddressingIdentifier>,
     capture_base: Option<SelfAddressingIdentifier>,
     overlays: HashMap<String, SelfAddressingIdentifier>,
 }
 impl State {
     fn new() -> Self {
         Self {
-            oca_bundle: None,
             capture_base: None,
             overlays: HashMap::new(),
         }
@@ -123,16 +125,23 @@ fn apply_step(
                 }
             }
 
+            let object = addressed_object(overlay_type, content);
+
             let overlay = step.result.overlays.iter().find(|overlay| {
-                overlay.overlay_type().eq(overlay_type) && overlay.language() == lang.as_ref()
+                overlay.overlay_type().eq(overlay_type)
+                    && overlay.language() == lang.as_ref()
+                    && overlay_object(overlay) == object
             });
 
             if let Some(overlay) = overlay {
                 let overlay_key = match overlay.language() {
                     Some(lang) => {
-                        format!("{}-{}", &overlay.overlay_type(), lang.to_639_1().unwrap())
+                        format!("{}-{}", &overlay.overlay_type(), lang.to_639_3())
                     }
-                    None => format!("{}", overlay.overlay_type()),
+                    None => match &object {
+                        Some(object) => format!("{}-{}", overlay.overlay_type(), object),
+                        None => format!("{}", overlay.overlay_type()),
+                    },
                 };
                 let parent_overlay = state.overlays.get(&overlay_key);
                 let overlay_model = OverlayModel {
@@ -151,23 +160,52 @@ fn apply_step(
         }
     }
 
+    let mut overlays_said: Vec<SelfAddressingIdentifier> = step
+        .result
+        .overlays
+        .iter()
+        .map(|overlay| overlay.said().clone().unwrap())
+        .collect();
+    // overlays of one kind are in no particular order
+    overlays_said.sort_by_key(|said| said.to_string());
+
     let oca_bundle_model = OCABundleModel {
         oca_bundle_said: step.result.said.clone().unwrap(),
-        parent: state.oca_bundle,
+        parent: step.parent_said.clone(),
         capture_base_said: step.result.capture_base.said.clone().unwrap(),
-        overlays_said: step
-            .result
-            .overlays
-            .iter()
-            .map(|overlay| overlay.said().clone().unwrap())
-            .collect(),
+        overlays_said,
     };
     result.oca_bundle = Some(oca_bundle_model.clone());
-    current_state.oca_bundle = Some(oca_bundle_model.oca_bundle_said.clone());
 
     (current_state, result)
 }
 
+/// There is one link overlay per target and one framing overlay per frame: what the command is about
+fn addressed_object(overlay_type: &ast::OverlayType, content: &ast::Content) -> Option<String> {
+    let property = match overlay_type {
+        ast::OverlayType::Link(_) => "target",
+        ast::OverlayType::AttributeFraming(_) => "id",
+        _ => return None,
+    };
+    match content.properties.as_ref()?.get(property)? {
+        ast::NestedValue::Value(value) => Some(value.clone()),
+        ast::NestedValue::Reference(ast::RefValue::Said(said)) => Some(said.to_string()),
+        ast::NestedValue::Reference(ast::RefValue::Name(name)) => Some(name.clone()),
+        _ => None,
+    }
+}
+
+/// What a link or framing overlay is about
+fn overlay_object(overlay: &DynOverlay) -> Option<String> {
+    let overlay = overlay.as_any();
+    if let Some(link) = overlay.downcast_ref::<LinkOverlay>() {
+        return Some(link.target_bundle.clone());
+    }
+    overlay
+        .downcast_ref::<AttributeFramingOverlay>()
+        .and_then(|framing| framing.metadata.get("frame_id").cloned())
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From c59a7ec4ca94080d3dff0c2aa10221bdade9263b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:01 +0000
Subject: [PATCH 37/58] fix: core model records form a chain through the base,
 and reaching an object again does not change its record

---
 oca/src/facade/build.rs | 54 +++++++++++++++++++++++------------------
 1 file changed, 31 insertions(+), 23 deletions(-)

diff --git a/oca/src/facade/build.rs b/oca/src/facade/build.rs
index 42177f9..5af1582 100644
--- a/oca/src/facade/build.rs
+++ b/oca/src/facade/build.rs
@@ -19,6 +19,7 @@ use oca_bundle_semantics::Encode;
 use oca_dag_semantics::build_core_db_model;
 use said::derivation::HashFunctionCode;
 use said::sad::SerializationFormats;
+use said::SelfAddressingIdentifier;
 
 #[derive(thiserror::Error, Debug, serde::Serialize)]
 #[serde(untagged)]
@@ -408,8 +409,24 @@ impl Facade {
     }
 
     fn build_models(&mut self, oca_build: &OCABuild) {
-        let result_models = build_core_db_model(oca_build);
-        result_models.iter().for_each(|model| {
+        // what the commands change are the objects the history of the base ends with
+        let mut steps = oca_build
+            .steps
+            .first()
+            .and_then(|step| step.parent_said.clone())
+            .and_then(|base| self.get_oca_bundle_steps(base).ok())
+            .unwrap_or_default();
+        let base_steps = steps.len();
+        steps.extend(oca_build.steps.iter().map(|step| OCABuildStep {
+            parent_said: step.parent_said.clone(),
+            command: step.command.clone(),
+            result: step.result.clone(),
+        }));
+        let result_models = build_core_db_model(&OCABuild {
+            oca_bundle: oca_build.oca_bundle.clone(),
+            steps,
+        });
+        result_models.iter().skip(base_steps).for_each(|model| {
             if let Some(command_model) = &model.command {
                 self.db
                     .insert(
@@ -442,13 +459,7 @@ impl Facade {
                 );
                 input.extend(capture_base_model.command_digest.to_string().as_bytes());
 
-                self.db
-                    .insert(
-                        Namespace::CoreModel,
-                        &format!("core_model.{}", capture_base_model.capture_base_said),
-                        &input,
-                    )
-                    .unwrap();
+                self.insert_model(&capture_base_model.capture_base_said, &input);
             }
 
             if let Some(overlay_model) = &model.overlay {
@@ -473,13 +484,7 @@ impl Facade {
                 );
                 input.extend(overlay_model.command_digest.to_string().as_bytes());
 
-                self.db
-                    .insert(
-                        Namespace::CoreModel,
-                        &format!("core_model.{}", overlay_model.overlay_said),
-                        &input,
-                    )
-                    .unwrap();
+                self.insert_model(&overlay_model.overlay_said, &input);
             }
 
             if let Some(oca_bundle_model) = &model.oca_bundle {
@@ -509,14 +514,17 @@ impl Facade {
                     input.extend(said.to_string().as_bytes());
                 }
 
-                self.db
-                    .insert(
-                        Namespace::CoreModel,
-                        &format!("core_model.{}", oca_bundle_model.oca_bundle_said),
-                        &input,
-                    )
-                    .unwrap();
+                self.insert_model(&oca_bundle_model.oca_bundle_said, &input);
             }
         });
     }
+
+    /// The record of an object tells how it was first reached; it is kept when the object is
+    /// reached again, otherwise records could come to refer to each other in a circle.
+    fn insert_model(&mut self, said: &SelfAddressingIdentifier, record: &[u8]) {
+        let key = format!("core_model.{}", said);
+        if self.db.get(Namespace::CoreModel, &key).unwrap().is_none() {
+            self.db.insert(Namespace::CoreModel, &key, record).unwrap();
+        }
+    }
 }
-- 
2.43.0


From f77e75c7dfbb1b2605ab2430de0f306ee1551075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:37 +0000
Subject: [PATCH 38/58] fix: the version graph records commands of any length,
 keeps histories acyclic, and reports failures instead of panicking or
 dropping the bundle

---
 semantics/oca-dag/src/versioning/mod.rs     |  6 +++
 semantics/oca-dag/src/versioning/ocafile.rs | 43 ++++++++++++---------
 2 files changed, 31 insertions(+), 18 deletions(-)

diff --git a/semantics/oca-dag/src/versioning/mod.rs b/semantics/oca-dag/src/versioning/mod.rs
index 8db25d3..58f8de9 100644
--- a/semantics/oca-dag/src/versioning/mod.rs
+++ b/semantics/oca-dag/src/versioning/mod.rs
@@ -13,6 +13,12 @@ impl Graph {
     }
 
     pub fn add(&self, new: &str, to: Option<&str>) -> Result<(), String> {
+        for said in std::iter::once(new).chain(to) {
+            if said.len() > u8::MAX.into() {
+                return Err(format!("Identifier too long: {said}"));
+            }
+        }
+
         self.db.insert(
             &format!("{}.upscending", new),
             &self.generate_parents_digests(to),
diff --git a/semantics/oca-dag/src/versioning/ocafile.rs b/semantics/oca-dag/src/versioning/ocafile.rs
index 6a84079..675d4fe 100644
--- a/semantics/oca-dag/src/versioning/ocafile.rs
+++ b/semantics/oca-dag/src/versioning/ocafile.rs
@@ -20,22 +20,16 @@ pub fn build_oca(
                 None => return Err("Missing bundle content".to_string()),
             };
             let oca_bundle_str = match db.get(&format!("oca.{}", said))? {
-                Some(oca_bundle_str) => String::from_utf8(oca_bundle_str).unwrap(),
+                Some(oca_bundle_str) => oca_bundle_str,
                 None => return Err("OCA not found".to_string()),
             };
-            let oca_b = serde_json::from_str::<OCABundle>(&oca_bundle_str).unwrap();
+            let oca_b = serde_json::from_slice::<OCABundle>(&oca_bundle_str)
+                .map_err(|e| format!("Malformed OCA: {e}"))?;
             base = Some(oca_b.into());
         } else {
-            let result = oca_bundle_semantics::build::apply_command(base.clone(), command.clone());
-            let mut oca_box: OCABox = OCABox::new();
-            match result {
-                Ok(oca) => {
-                    oca_box = oca;
-                }
-                Err(errors) => {
-                    println!("{:?}", errors);
-                }
-            };
+            let mut oca_box =
+                oca_bundle_semantics::build::apply_command(base.clone(), command.clone())
+                    .map_err(|errors| errors.join("; "))?;
             let oca_bundle = oca_box.generate_bundle();
             let command_str = serde_json::to_string(&command).unwrap();
 
@@ -50,12 +44,13 @@ pub fn build_oca(
                     input.push(0);
                 }
             }
-            input.push(command_str.len().try_into().unwrap());
+            push_length(&mut input, command_str.len());
             input.extend(command_str.as_bytes());
-            db.insert(
-                &format!("oca.{}.operation", oca_bundle.clone().said.unwrap()),
-                &input,
-            )?;
+            // reaching a bundle again keeps its history, which could become cyclic
+            let operation_key = format!("oca.{}.operation", oca_bundle.clone().said.unwrap());
+            if db.get(&operation_key)?.is_none() {
+                db.insert(&operation_key, &input)?;
+            }
             let code = HashFunctionCode::Blake3_256;
             let format = SerializationFormats::JSON;
             db.insert(
@@ -67,7 +62,19 @@ pub fn build_oca(
         }
     }
 
-    Ok(base.unwrap().generate_bundle())
+    base.map(|mut base| base.generate_bundle())
+        .ok_or_else(|| "No commands to build from".to_string())
+}
+
+/// A length up to 254 takes one byte, a longer one is 255 followed by four bytes, big-endian
+fn push_length(record: &mut Vec<u8>, length: usize) {
+    match u8::try_from(length) {
+        Ok(short) if short < u8::MAX => record.push(short),
+        _ => {
+            record.push(u8::MAX);
+            record.extend((length as u32).to_be_bytes());
+        }
+    }
 }
 
 #[cfg(test)]
-- 
2.43.0


From 4e691edfa81853c2051a6769b0c997e077a4eb83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:16 +0000
Subject: [PATCH 39/58] fix: converting or exporting a loaded bundle whose
 overlays name unknown attributes, dependencies or languages does not panic

---
 semantics/oca-bundle/src/state/oca.rs         | 148 ++++++++----------
 .../src/state/oca/overlay/conditional.rs      |  41 ++++-
 2 files changed, 100 insertions(+), 89 deletions(-)

diff --git a/semantics/oca-bundle/src/state/oca.rs b/semantics/oca-bundle/src/state/oca.rs
index 0bef8b4..e8fda4c 100644
--- a/semantics/oca-bundle/src/state/oca.rs
+++ b/semantics/oca-bundle/src/state/oca.rs
@@ -699,7 +699,9 @@ impl From<OCABundle> for OCABox {
             attributes.insert(attr_name.clone(), attr);
         }
         for attr_name in oca_bundle.capture_base.flagged_attributes {
-            attributes.get_mut(&attr_name).unwrap().set_flagged();
+            if let Some(attribute) = attributes.get_mut(&attr_name) {
+                attribute.set_flagged();
+            }
         }
 
         let meta_overlays = oca_bundle
@@ -724,10 +726,9 @@ impl From<OCABundle> for OCABox {
             .collect::<Vec<_>>();
         for overlay in character_encoding_overlays {
             for (attr_name, encoding) in overlay.attribute_character_encoding.iter() {
-                attributes
-                    .get_mut(attr_name)
-                    .unwrap()
-                    .set_encoding(*encoding);
+                if let Some(attribute) = attributes.get_mut(attr_name) {
+                    attribute.set_encoding(*encoding);
+                }
             }
         }
 
@@ -738,10 +739,9 @@ impl From<OCABundle> for OCABox {
             .collect::<Vec<_>>();
         for overlay in conformance_overlays {
             for (attr_name, conformance) in overlay.attribute_conformance.iter() {
-                attributes
-                    .get_mut(attr_name)
-                    .unwrap()
-                    .set_conformance(conformance.clone());
+                if let Some(attribute) = attributes.get_mut(attr_name) {
+                    attribute.set_conformance(conformance.clone());
+                }
             }
         }
 
@@ -751,21 +751,17 @@ impl From<OCABundle> for OCABox {
             .filter_map(|x| x.as_any().downcast_ref::<overlay::Conditional>())
             .collect::<Vec<_>>();
 
-        let re = regex::Regex::new(r"\$\{(\d+)\}").unwrap();
         for overlay in conditional_overlays {
             for (attr_name, condition) in overlay.attribute_conditions.iter() {
-                let condition_dependencies = overlay.attribute_dependencies.get(attr_name).unwrap(); // todo
-                let cond = re
-                    .replace_all(condition, |caps: &regex::Captures| {
-                        let dep = condition_dependencies[caps[1].parse::<usize>().unwrap()].clone();
-                        format!("${{{}}}", dep)
-                    })
-                    .to_string();
+                let condition_dependencies = overlay.attribute_dependencies.get(attr_name);
+                let cond = overlay::conditional::name_dependencies(
+                    condition,
+                    condition_dependencies.map_or(&[], |d| d.as_slice()),
+                );
 
-                attributes
-                    .get_mut(attr_name)
-                    .unwrap()
-                    .set_condition(cond.clone());
+                if let Some(attribute) = attributes.get_mut(attr_name) {
+                    attribute.set_condition(cond.clone());
+                }
             }
         }
 
@@ -776,10 +772,9 @@ impl From<OCABundle> for OCABox {
             .collect::<Vec<_>>();
         for overlay in cardinality_overlays {
             for (attr_name, cardinality) in overlay.attribute_cardinality.iter() {
-                attributes
-                    .get_mut(attr_name)
-                    .unwrap()
-                    .set_cardinality(cardinality.clone());
+                if let Some(attribute) = attributes.get_mut(attr_name) {
+                    attribute.set_cardinality(cardinality.clone());
+                }
             }
         }
 
@@ -792,10 +787,9 @@ impl From<OCABundle> for OCABox {
                 .collect::<Vec<_>>();
             for overlay in format_overlays {
                 for (attr_name, format) in overlay.attribute_formats.iter() {
-                    attributes
-                        .get_mut(attr_name)
-                        .unwrap()
-                        .set_format(format.clone());
+                    if let Some(attribute) = attributes.get_mut(attr_name) {
+                        attribute.set_format(format.clone());
+                    }
                 }
             }
         }
@@ -807,10 +801,9 @@ impl From<OCABundle> for OCABox {
             .collect::<Vec<_>>();
         for overlay in unit_overlays {
             for (attr_name, unit) in overlay.attribute_unit.iter() {
-                attributes
-                    .get_mut(attr_name)
-                    .unwrap()
-                    .set_unit(unit.clone());
+                if let Some(attribute) = attributes.get_mut(attr_name) {
+                    attribute.set_unit(unit.clone());
+                }
             }
         }
 
@@ -821,10 +814,9 @@ impl From<OCABundle> for OCABox {
             .collect::<Vec<_>>();
         for overlay in entry_code_overlays {
             for (attr_name, entry_code) in overlay.attribute_entry_codes.iter() {
-                attributes
-                    .get_mut(attr_name)
-                    .unwrap()
-                    .set_entry_codes(entry_code.clone());
+                if let Some(attribute) = attributes.get_mut(attr_name) {
+                    attribute.set_entry_codes(entry_code.clone());
+                }
             }
         }
 
@@ -835,10 +827,9 @@ impl From<OCABundle> for OCABox {
             .collect::<Vec<_>>();
         for overlay in entry_overlays {
             for (attr_name, entries) in overlay.attribute_entries.iter() {
-                attributes
-                    .get_mut(attr_name)
-                    .unwrap()
-                    .set_entry(*overlay.language().unwrap(), entries.clone());
+                if let Some(attribute) = attributes.get_mut(attr_name) {
+                    attribute.set_entry(*overlay.language().unwrap(), entries.clone());
+                }
             }
         }
 
@@ -849,10 +840,9 @@ impl From<OCABundle> for OCABox {
             .collect::<Vec<_>>();
         for overlay in label_overlays {
             for (attr_name, label) in overlay.attribute_labels.iter() {
-                attributes
-                    .get_mut(attr_name)
-                    .unwrap()
-                    .set_label(*overlay.language().unwrap(), label.clone());
+                if let Some(attribute) = attributes.get_mut(attr_name) {
+                    attribute.set_label(*overlay.language().unwrap(), label.clone());
+                }
             }
         }
 
@@ -863,10 +853,9 @@ impl From<OCABundle> for OCABox {
             .collect::<Vec<_>>();
         for overlay in information_overlays {
             for (attr_name, information) in overlay.attribute_information.iter() {
-                attributes
-                    .get_mut(attr_name)
-                    .unwrap()
-                    .set_information(*overlay.language().unwrap(), information.clone());
+                if let Some(attribute) = attributes.get_mut(attr_name) {
+                    attribute.set_information(*overlay.language().unwrap(), information.clone());
+                }
             }
         }
 
@@ -877,10 +866,9 @@ impl From<OCABundle> for OCABox {
             .collect::<Vec<_>>();
         for overlay in link_overlays {
             for (attr_name, mapping) in overlay.attribute_mapping.iter() {
-                attributes
-                    .get_mut(attr_name)
-                    .unwrap()
-                    .set_link(overlay.target_bundle.clone(), mapping.clone());
+                if let Some(attribute) = attributes.get_mut(attr_name) {
+                    attribute.set_link(overlay.target_bundle.clone(), mapping.clone());
+                }
             }
         }
 
@@ -890,7 +878,9 @@ impl From<OCABundle> for OCABox {
             .filter_map(|x| x.as_any().downcast_ref::<overlay::AttributeFraming>())
             .collect::<Vec<_>>();
         for overlay in framing_overlays {
-            let frame_id = overlay.metadata.get("frame_id").unwrap();
+            let Some(frame_id) = overlay.metadata.get("frame_id") else {
+                continue;
+            };
             let mut frame_meta = overlay.metadata.clone();
             frame_meta.remove("frame_id");
 
@@ -904,10 +894,9 @@ impl From<OCABundle> for OCABox {
                     })
                     .collect::<HashMap<_, _>>();
 
-                attributes
-                    .get_mut(attr_name)
-                    .unwrap()
-                    .set_framing(frame_id.to_string(), framing);
+                if let Some(attribute) = attributes.get_mut(attr_name) {
+                    attribute.set_framing(frame_id.to_string(), framing);
+                }
             }
         }
 
@@ -919,6 +908,14 @@ impl From<OCABundle> for OCABox {
     }
 }
 
+/// OCAfile uses two-letter codes, for a language without one there is only the three-letter code
+fn language_code(language: Option<&Language>) -> String {
+    language
+        .map(|lang| lang.to_639_1().unwrap_or_else(|| lang.to_639_3()))
+        .unwrap_or_default()
+        .to_string()
+}
+
 impl OCABundle {
     pub fn fill_said(&mut self) {
         let code = HashFunctionCode::Blake3_256;
@@ -1023,9 +1020,7 @@ impl OCABundle {
                     let mut properties = IndexMap::new();
                     properties.insert(
                         "lang".to_string(),
-                        NestedValue::Value(
-                            meta.language().unwrap().to_639_1().unwrap().to_string(),
-                        ),
+                        NestedValue::Value(language_code(meta.language())),
                     );
                     for (meta_name, meta_value) in meta.attr_pairs.iter() {
                         properties
@@ -1048,9 +1043,7 @@ impl OCABundle {
                     let mut properties = IndexMap::new();
                     properties.insert(
                         "lang".to_string(),
-                        NestedValue::Value(
-                            label.language().unwrap().to_639_1().unwrap().to_string(),
-                        ),
+                        NestedValue::Value(language_code(label.language())),
                     );
                     let mut attributes = IndexMap::new();
                     for (attr_name, label) in label.attribute_labels.iter() {
@@ -1076,14 +1069,7 @@ impl OCABundle {
                     let mut properties = IndexMap::new();
                     properties.insert(
                         "lang".to_string(),
-                        NestedValue::Value(
-                            information
-                                .language()
-                                .unwrap()
-                                .to_639_1()
-                                .unwrap()
-                                .to_string(),
-                        ),
+                        NestedValue::Value(language_code(information.language())),
                     );
                     let mut attributes = IndexMap::new();
                     for (attr_name, information) in information.attribute_information.iter() {
@@ -1108,17 +1094,13 @@ impl OCABundle {
                         .downcast_ref::<overlay::Conditional>()
                         .unwrap();
                     let mut attributes = IndexMap::new();
-                    let re = regex::Regex::new(r"\$\{(\d+)\}").unwrap();
                     for (attr_name, condition) in conditional.attribute_conditions.iter() {
                         let condition_dependencies =
-                            conditional.attribute_dependencies.get(attr_name).unwrap(); // todo
-                        let cond = re
-                            .replace_all(condition, |caps: &regex::Captures| {
-                                let dep = condition_dependencies[caps[1].parse::<usize>().unwrap()]
-                                    .clone();
-                                format!("${{{}}}", dep)
-                            })
-                            .to_string();
+                            conditional.attribute_dependencies.get(attr_name);
+                        let cond = overlay::conditional::name_dependencies(
+                            condition,
+                            condition_dependencies.map_or(&[], |d| d.as_slice()),
+                        );
 
                         attributes.insert(attr_name.clone(), NestedValue::Value(cond.clone()));
                     }
@@ -1217,9 +1199,7 @@ impl OCABundle {
                     let mut properties = IndexMap::new();
                     properties.insert(
                         "lang".to_string(),
-                        NestedValue::Value(
-                            entry.language().unwrap().to_639_1().unwrap().to_string(),
-                        ),
+                        NestedValue::Value(language_code(entry.language())),
                     );
                     let mut attributes = IndexMap::new();
                     for (attr_name, entries) in entry.attribute_entries.iter() {
diff --git a/semantics/oca-bundle/src/state/oca/overlay/conditional.rs b/semantics/oca-bundle/src/state/oca/overlay/conditional.rs
index 404e95c..993338f 100644
--- a/semantics/oca-bundle/src/state/oca/overlay/conditional.rs
+++ b/semantics/oca-bundle/src/state/oca/overlay/conditional.rs
@@ -20,6 +20,23 @@ pub enum Error {
     Custom(String),
 }
 
+/// Replaces the indexes of a stored condition by the names of its dependencies.
+/// An index without dependency is left as it is.
+pub(crate) fn name_dependencies(condition: &str, dependencies: &[String]) -> String {
+    let re = regex::Regex::new(r"\$\{(\d+)\}").unwrap();
+    re.replace_all(condition, |caps: &regex::Captures| {
+        match caps[1]
+            .parse::<usize>()
+            .ok()
+            .and_then(|i| dependencies.get(i))
+        {
+            Some(dep) => format!("${{{dep}}}"),
+            None => caps[0].to_string(),
+        }
+    })
+    .to_string()
+}
+
 impl Conditionals for Attribute {
     fn set_condition(&mut self, condition: String) {
         let re = regex::Regex::new(r"\$\{([^}]*)\}").unwrap();
@@ -51,7 +68,7 @@ impl Conditionals for Attribute {
         let condition = &self.condition.clone().ok_or(vec![Error::Custom(
             "Attribute has no condition".to_string(),
         )])?;
-        let condition_dependencies = &self.dependencies.clone().unwrap();
+        let condition_dependencies = &self.dependencies.clone().unwrap_or_default();
         let re = regex::Regex::new(r"\$\{(\d+)\}").unwrap();
         let attr = &self.name;
         if condition_dependencies.contains(attr) {
@@ -71,12 +88,26 @@ impl Conditionals for Attribute {
 
         let script = re
             .replace_all(condition, |caps: &regex::Captures| {
-                dependency_values
-                    .get(&condition_dependencies[caps[1].parse::<usize>().unwrap()].clone())
-                    .unwrap()
-                    .to_string()
+                let value = caps[1]
+                    .parse::<usize>()
+                    .ok()
+                    .and_then(|i| condition_dependencies.get(i))
+                    .and_then(|d| dependency_values.get(d));
+                match value {
+                    Some(value) => value.to_string(),
+                    None => {
+                        errors.push(Error::Custom(format!(
+                            "Attribute '{attr}' has a condition with unknown dependency {}",
+                            &caps[0]
+                        )));
+                        String::new()
+                    }
+                }
             })
             .to_string();
+        if !errors.is_empty() {
+            return Err(errors);
+        }
 
         let mut lua = Lua::new();
         let thread_result = lua.try_run(|ctx| {
-- 
2.43.0


From b47ceca6080fe15f5ee426e898649ad338983aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:25 +0000
Subject: [PATCH 40/58] fix: a loaded bundle does not drop malformed or
 duplicated overlays its SAID would not cover

---
 semantics/oca-bundle/src/state/oca.rs | 41 +++++++++++++++++++--------
 1 file changed, 29 insertions(+), 12 deletions(-)

diff --git a/semantics/oca-bundle/src/state/oca.rs b/semantics/oca-bundle/src/state/oca.rs
index e8fda4c..2af9ed7 100644
--- a/semantics/oca-bundle/src/state/oca.rs
+++ b/semantics/oca-bundle/src/state/oca.rs
@@ -554,6 +554,16 @@ impl<'de> Deserialize<'de> for DynOverlay {
     }
 }
 
+/// Kinds of overlays a bundle may have several of
+const OVERLAYS_MANY: [&str; 6] = [
+    "meta",
+    "entry",
+    "label",
+    "information",
+    "link",
+    "attribute_framing",
+];
+
 pub fn serialize_overlays<S>(overlays: &Vec<DynOverlay>, s: S) -> Result<S::Ok, S::Error>
 where
     S: Serializer,
@@ -568,20 +578,11 @@ where
         Object(Box<dyn Overlay + Send>),
     }
 
-    let overlays_many = [
-        "meta",
-        "entry",
-        "label",
-        "information",
-        "link",
-        "attribute_framing",
-    ];
-
     let mut overlays_map: BTreeMap<Value, OverlayValue> = BTreeMap::new();
     for overlay in overlays {
         let o_type_str = overlay.overlay_type().to_string().to_case(Case::Snake);
 
-        if overlays_many.contains(&o_type_str.as_str()) {
+        if OVERLAYS_MANY.contains(&o_type_str.as_str()) {
             if let Some(OverlayValue::Array(ov)) =
                 overlays_map.get_mut(&Value::String(o_type_str.clone()))
             {
@@ -638,18 +639,34 @@ where
         where
             V: serde::de::MapAccess<'de>,
         {
-            let mut overlays = vec![];
+            let mut overlays: Vec<DynOverlay> = vec![];
 
             while let Some((_, value)) = map.next_entry::<String, serde_value::Value>()? {
                 if let serde_value::Value::Seq(ov) = value {
                     for o in ov {
                         overlays.push(o.deserialize_into().map_err(serde::de::Error::custom)?);
                     }
-                } else if let serde_value::Value::Map(_) = value {
+                } else if !matches!(
+                    value,
+                    serde_value::Value::Unit | serde_value::Value::Option(None)
+                ) {
                     overlays.push(value.deserialize_into().map_err(serde::de::Error::custom)?);
                 }
             }
 
+            // the encoded bundle, which its SAID is computed from, has room for only one of them
+            for (i, overlay) in overlays.iter().enumerate() {
+                let o_type = overlay.overlay_type().to_string();
+                if !OVERLAYS_MANY.contains(&o_type.to_case(Case::Snake).as_str())
+                    && overlays[..i]
+                        .iter()
+                        .any(|o| o.overlay_type().to_string() == o_type)
+                {
+                    let message = format!("Duplicated {o_type} overlay");
+                    return Err(serde::de::Error::custom(message));
+                }
+            }
+
             Ok(overlays)
         }
     }
-- 
2.43.0


From f52baea73a04b7fd658ea964c0f245e5d9d88ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:00 +0000
Subject: [PATCH 41/58] fix: a condition that makes the interpreter panic or
 never end is an error

---
 .../src/state/oca/overlay/conditional.rs      | 59 ++++++++++++-------
 semantics/oca-bundle/src/state/validator.rs   | 35 ++---------
 2 files changed, 44 insertions(+), 50 deletions(-)

diff --git a/semantics/oca-bundle/src/state/oca/overlay/conditional.rs b/semantics/oca-bundle/src/state/oca/overlay/conditional.rs
index 993338f..a0630e4 100644
--- a/semantics/oca-bundle/src/state/oca/overlay/conditional.rs
+++ b/semantics/oca-bundle/src/state/oca/overlay/conditional.rs
@@ -1,6 +1,6 @@
 use crate::state::{attribute::Attribute, oca::Overlay};
 use oca_ast_semantics::ast::OverlayType;
-use piccolo::{Closure, Lua, Thread};
+use piccolo::{Closure, Lua, StaticError, Thread, ThreadMode};
 use said::derivation::HashFunctionCode;
 use said::{sad::SerializationFormats, sad::SAD};
 use serde::{Deserialize, Serialize};
@@ -37,6 +37,40 @@ pub(crate) fn name_dependencies(condition: &str, dependencies: &[String]) -> Str
     .to_string()
 }
 
+/// How many rounds of instructions an expression may take
+const EVALUATION_ROUNDS: usize = 10_000;
+
+/// Evaluates an expression. The interpreter panics on some arithmetic, and some expressions never
+/// end: both are errors of the expression.
+pub(crate) fn evaluate(expression: &str) -> Result<bool, String> {
+    std::panic::catch_unwind(|| run(expression))
+        .unwrap_or_else(|_| Err("the expression cannot be evaluated".to_string()))
+}
+
+fn run(expression: &str) -> Result<bool, String> {
+    let message = |e: StaticError| e.source().map(|s| s.to_string()).unwrap_or_default();
+    let mut lua = Lua::new();
+    let thread = lua
+        .try_run(|ctx| {
+            let closure = Closure::load(ctx, format!("return {expression}").as_bytes())?;
+            let thread = Thread::new(&ctx);
+            thread.start(ctx, closure.into(), ())?;
+            Ok(ctx.state.registry.stash(&ctx, thread))
+        })
+        .map_err(message)?;
+
+    for _ in 0..EVALUATION_ROUNDS {
+        let finished = lua.run(|ctx| {
+            let thread = ctx.state.registry.fetch(&thread);
+            thread.mode() != ThreadMode::Normal || thread.step(ctx).is_err()
+        });
+        if finished {
+            return lua.run_thread::<bool>(&thread).map_err(message);
+        }
+    }
+    Err("the evaluation takes too long".to_string())
+}
+
 impl Conditionals for Attribute {
     fn set_condition(&mut self, condition: String) {
         let re = regex::Regex::new(r"\$\{([^}]*)\}").unwrap();
@@ -109,29 +143,12 @@ impl Conditionals for Attribute {
             return Err(errors);
         }
 
-        let mut lua = Lua::new();
-        let thread_result = lua.try_run(|ctx| {
-            let closure = Closure::load(ctx, format!("return {script}").as_bytes())?;
-            let thread = Thread::new(&ctx);
-            thread.start(ctx, closure.into(), ())?;
-            Ok(ctx.state.registry.stash(&ctx, thread))
-        });
-
         let mut result = None;
-        match thread_result {
-            Ok(thread) => match lua.run_thread::<bool>(&thread) {
-                Ok(r) => result = Some(r),
-                Err(e) => {
-                    errors.push(Error::Custom(format!(
-                        "Attribute '{attr}' has invalid condition: {}",
-                        e.source().unwrap()
-                    )));
-                }
-            },
+        match evaluate(&script) {
+            Ok(r) => result = Some(r),
             Err(e) => {
                 errors.push(Error::Custom(format!(
-                    "Attribute '{attr}' has invalid condition: {}",
-                    e.source().unwrap()
+                    "Attribute '{attr}' has invalid condition: {e}",
                 )));
             }
         };
diff --git a/semantics/oca-bundle/src/state/validator.rs b/semantics/oca-bundle/src/state/validator.rs
index 60f8291..4d54bd6 100644
--- a/semantics/oca-bundle/src/state/validator.rs
+++ b/semantics/oca-bundle/src/state/validator.rs
@@ -3,13 +3,9 @@ use crate::state::oca::DynOverlay;
 use indexmap::IndexMap;
 use isolang::Language;
 use oca_ast_semantics::ast::{AttributeType, NestedAttrType, OverlayType};
-use std::{
-    collections::{HashMap, HashSet},
-    error::Error as StdError,
-};
+use std::collections::{HashMap, HashSet};
 
-use super::oca::{overlay, OCABundle};
-use piccolo::{Closure, Lua, Thread};
+use super::oca::{overlay, overlay::conditional::evaluate, OCABundle};
 
 #[derive(Debug)]
 pub enum Error {
@@ -312,29 +308,10 @@ impl Validator {
                 continue;
             }
 
-            let mut lua = Lua::new();
-            let thread_result = lua.try_run(|ctx| {
-                let closure = Closure::load(ctx, format!("return {script}").as_bytes())?;
-                let thread = Thread::new(&ctx);
-                thread.start(ctx, closure.into(), ())?;
-                Ok(ctx.state.registry.stash(&ctx, thread))
-            });
-
-            match thread_result {
-                Ok(thread) => {
-                    if let Err(e) = lua.run_thread::<bool>(&thread) {
-                        errors.push(Error::Custom(format!(
-                            "Attribute '{attr}' has invalid condition: {}",
-                            e.source().unwrap()
-                        )));
-                    }
-                }
-                Err(e) => {
-                    errors.push(Error::Custom(format!(
-                        "Attribute '{attr}' has invalid condition: {}",
-                        e.source().unwrap()
-                    )));
-                }
+            if let Err(e) = evaluate(&script) {
+                errors.push(Error::Custom(format!(
+                    "Attribute '{attr}' has invalid condition: {e}"
+                )));
             }
         }
 
-- 
2.43.0


From 7c94cf29109aa0d4fd74792105a3afa3468e3549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:06 +0000
Subject: [PATCH 42/58] fix: an identifier cut after its leading 0 is refused,
 not a panic

---
 oca/src/facade/explore.rs                             |  4 +---
 oca/src/local_references.rs                           |  4 +---
 semantics/oca-ast/src/ast/mod.rs                      | 11 +++++++++--
 semantics/oca-bundle/src/state/oca.rs                 |  6 +++---
 semantics/oca-file/src/ocafile/instructions/from.rs   |  6 ++----
 .../oca-file/src/ocafile/instructions/helpers.rs      |  6 +++---
 6 files changed, 19 insertions(+), 18 deletions(-)

diff --git a/oca/src/facade/explore.rs b/oca/src/facade/explore.rs
index 84b5984..cb7aca1 100644
--- a/oca/src/facade/explore.rs
+++ b/oca/src/facade/explore.rs
@@ -1,17 +1,15 @@
 use crate::data_storage::Namespace;
 use oca_ast_semantics::ast::{BundleContent, CaptureContent, Content, ObjectKind, RefValue};
 use oca_bundle_semantics::state::oca::OCABundle;
-use said::SelfAddressingIdentifier;
 use serde::{ser::SerializeStruct, Serialize};
 use std::collections::HashSet;
-use std::str::FromStr;
 
 use super::Facade;
 
 impl Facade {
     pub fn explore(&self, said: String) -> Option<Relationship> {
         // only identifiers have relations; other keys of the namespace hold other data
-        SelfAddressingIdentifier::from_str(&said).ok()?;
+        oca_ast_semantics::ast::parse_said(&said).ok()?;
         let relations_u8_res = self.db.get(Namespace::OCARelations, &said);
 
         match relations_u8_res {
diff --git a/oca/src/local_references.rs b/oca/src/local_references.rs
index 2e9146c..8239dc6 100644
--- a/oca/src/local_references.rs
+++ b/oca/src/local_references.rs
@@ -1,5 +1,3 @@
-use std::str::FromStr;
-
 use oca_ast_semantics::ast::{
     CommandType, NestedAttrType, NestedValue, OCAAst, ObjectKind, OverlayType, RefValue,
 };
@@ -61,6 +59,6 @@ fn find_said<R: References>(
 ) -> Result<SelfAddressingIdentifier, ValidationError> {
     references
         .find(refn)
-        .and_then(|said| SelfAddressingIdentifier::from_str(&said).ok())
+        .and_then(|said| oca_ast_semantics::ast::parse_said(&said).ok())
         .ok_or_else(|| ValidationError::UnknownRefn(refn.to_string()))
 }
diff --git a/semantics/oca-ast/src/ast/mod.rs b/semantics/oca-ast/src/ast/mod.rs
index eb278a6..2caa32b 100644
--- a/semantics/oca-ast/src/ast/mod.rs
+++ b/semantics/oca-ast/src/ast/mod.rs
@@ -510,7 +510,7 @@ impl FromStr for RefValue {
             .ok_or(RefValueParsingError::MissingColon)?;
         match tag {
             "refs" => {
-                let said = SelfAddressingIdentifier::from_str(rest)?;
+                let said = parse_said(rest)?;
                 Ok(RefValue::Said(said))
             }
             "refn" => Ok(RefValue::Name(rest.to_string())),
@@ -519,6 +519,13 @@ impl FromStr for RefValue {
     }
 }
 
+/// Parses an identifier. The CESR decoder panics on a text made of a two
+/// character code cut after its `0`, such a text is refused here.
+pub fn parse_said(s: &str) -> Result<SelfAddressingIdentifier, said::error::Error> {
+    let s = if s.get(1..2).is_some() { s } else { "" };
+    SelfAddressingIdentifier::from_str(s)
+}
+
 #[derive(Error, Debug)]
 
 pub enum RefValueParsingError {
@@ -714,7 +721,7 @@ impl<'de> Deserialize<'de> for RefValue {
         ))?;
         match tag {
             "refs" => {
-                let said = SelfAddressingIdentifier::from_str(rest);
+                let said = parse_said(rest);
                 match said {
                     Ok(said) => Ok(RefValue::Said(said)),
                     Err(_) => Err(serde::de::Error::custom(format!(
diff --git a/semantics/oca-bundle/src/state/oca.rs b/semantics/oca-bundle/src/state/oca.rs
index 2af9ed7..31789bc 100644
--- a/semantics/oca-bundle/src/state/oca.rs
+++ b/semantics/oca-bundle/src/state/oca.rs
@@ -27,8 +27,8 @@ use crate::state::{
 use convert_case::{Case, Casing};
 use isolang::Language;
 use oca_ast_semantics::ast::{
-    CaptureContent, Command, CommandType, Content, NestedValue, OCAAst, ObjectKind, OverlayType,
-    RefValue,
+    parse_said, CaptureContent, Command, CommandType, Content, NestedValue, OCAAst, ObjectKind,
+    OverlayType, RefValue,
 };
 /// Internal representation of OCA objects in split between non-attributes values and attributes.
 /// It is used to build dynamically objects without knowing yet whole structure of the object.
@@ -1300,7 +1300,7 @@ impl OCABundle {
                 }
                 OverlayType::Link(_) => {
                     let link = overlay.as_any().downcast_ref::<overlay::Link>().unwrap();
-                    let target = match link.target_bundle.parse() {
+                    let target = match parse_said(&link.target_bundle) {
                         Ok(said) => NestedValue::Reference(RefValue::Said(said)),
                         Err(_) => NestedValue::Value(link.target_bundle.clone()),
                     };
diff --git a/semantics/oca-file/src/ocafile/instructions/from.rs b/semantics/oca-file/src/ocafile/instructions/from.rs
index 791b3df..8b9c128 100644
--- a/semantics/oca-file/src/ocafile/instructions/from.rs
+++ b/semantics/oca-file/src/ocafile/instructions/from.rs
@@ -1,9 +1,8 @@
 use crate::ocafile::{error::InstructionError, Pair, Rule};
 use log::debug;
 use oca_ast_semantics::ast::{
-    BundleContent, Command, CommandType, ObjectKind, RefValue, ReferenceAttrType,
+    parse_said, BundleContent, Command, CommandType, ObjectKind, RefValue, ReferenceAttrType,
 };
-use said::SelfAddressingIdentifier;
 
 #[derive(Debug, PartialEq, Eq, Clone)]
 pub struct FromInstruction {}
@@ -26,8 +25,7 @@ impl FromInstruction {
         }
 
         let said_str = said_pair.unwrap().as_str();
-        let said: SelfAddressingIdentifier = said_str
-            .parse()
+        let said = parse_said(said_str)
             .map_err(|_| InstructionError::Parser(format!("Invalid said: {said_str}")))?;
         debug!("Using oca bundle from: {:?}", said);
         let said = ReferenceAttrType::Reference(RefValue::Said(said));
diff --git a/semantics/oca-file/src/ocafile/instructions/helpers.rs b/semantics/oca-file/src/ocafile/instructions/helpers.rs
index d7eebb0..402e30c 100644
--- a/semantics/oca-file/src/ocafile/instructions/helpers.rs
+++ b/semantics/oca-file/src/ocafile/instructions/helpers.rs
@@ -4,11 +4,11 @@ use crate::ocafile::{error::ExtractingAttributeError, Pair, Rule};
 use indexmap::IndexMap;
 use log::debug;
 use oca_ast_semantics::ast::{
+    parse_said,
     recursive_attributes::{AttributeTypeResult, NestedAttrTypeFrame},
     AttributeType, Content, NestedAttrType, NestedValue, RefValue,
 };
 use recursion::ExpandableExt;
-use said::SelfAddressingIdentifier;
 
 /// Deeper arrays could not be read back from JSON.
 const MAX_ARRAY_DEPTH: usize = 100;
@@ -45,7 +45,7 @@ fn extract_attr_type(input: Pair) -> Result<NestedAttrType, ExtractingAttributeE
             seed.as_str().to_string(),
         ))
         .into(),
-        Rule::said => match SelfAddressingIdentifier::from_str(seed.as_str()) {
+        Rule::said => match parse_said(seed.as_str()) {
             Ok(said) => NestedAttrTypeFrame::Reference(RefValue::Said(said)).into(),
             Err(e) => ExtractingAttributeError::SaidError(e).into(),
         },
@@ -448,7 +448,7 @@ pub fn extract_properites_key_pairs(object: Pair) -> Option<IndexMap<String, Nes
             }
             Rule::said => {
                 debug!("Parsing target said: {:?}", attr.as_str());
-                if let Ok(said) = SelfAddressingIdentifier::from_str(attr.as_str()) {
+                if let Ok(said) = parse_said(attr.as_str()) {
                     properties.insert(
                         "target".to_string(),
                         NestedValue::Reference(RefValue::Said(said)),
-- 
2.43.0


From d718cc48fa661ea4275a8beb3b2d77461ed20f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:48 +0000
Subject: [PATCH 43/58] fix: keys of the file system storage cannot name files
 outside of their namespace

---
 oca/src/data_storage.rs | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/oca/src/data_storage.rs b/oca/src/data_storage.rs
index 7bf0970..d8e0e60 100644
--- a/oca/src/data_storage.rs
+++ b/oca/src/data_storage.rs
@@ -237,6 +237,25 @@ impl FileSystemStorageConfigBuilder {
     }
 }
 
+impl FileSystemStorage {
+    /// Name of the file a key is kept in: characters that cannot be part of a file name, or
+    /// would lead out of the directory of the namespace, are replaced by %XX.
+    fn file_name(key: &str) -> String {
+        match key {
+            "" => "%".to_string(),
+            "." | ".." => key.replace('.', "%2E"),
+            _ => key
+                .chars()
+                .map(|c| match c {
+                    '%' | '\0' => format!("%{:02X}", u32::from(c)),
+                    c if std::path::is_separator(c) => format!("%{:02X}", u32::from(c)),
+                    c => c.to_string(),
+                })
+                .collect(),
+        }
+    }
+}
+
 impl DataStorage for FileSystemStorage {
     fn new() -> Self {
         Self { dir: None }
@@ -256,7 +275,7 @@ impl DataStorage for FileSystemStorage {
             let mut path = dir.clone();
             path.push(namespace.as_str());
             if path.try_exists().unwrap() {
-                path.push(key);
+                path.push(Self::file_name(key));
                 Ok(std::fs::read(path.clone()).ok())
             } else {
                 Ok(None)
@@ -278,7 +297,7 @@ impl DataStorage for FileSystemStorage {
                 std::fs::create_dir_all(path.clone()).unwrap();
             }
 
-            path.push(key);
+            path.push(Self::file_name(key));
             std::fs::write(path.clone(), value).map_err(|e| e.to_string())
         } else {
             Err("File path is required".to_string())
-- 
2.43.0


From ab312e89ad800a812632dd1c237391003d903a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:48 +0000
Subject: [PATCH 44/58] fix: the file system storage lists a namespace and
 reports read errors

---
 oca/src/data_storage.rs | 41 ++++++++++++++++++++++++++++++++++++++---
 1 file changed, 38 insertions(+), 3 deletions(-)

diff --git a/oca/src/data_storage.rs b/oca/src/data_storage.rs
index d8e0e60..2308532 100644
--- a/oca/src/data_storage.rs
+++ b/oca/src/data_storage.rs
@@ -254,6 +254,21 @@ impl FileSystemStorage {
                 .collect(),
         }
     }
+
+    /// Key kept in the file of that name
+    fn key(file_name: &str) -> Option<String> {
+        if file_name == "%" {
+            return Some(String::new());
+        }
+        let mut parts = file_name.split('%');
+        let mut key = parts.next()?.to_string();
+        for part in parts {
+            let code = u8::from_str_radix(part.get(..2)?, 16).ok()?;
+            key.push(char::from(code));
+            key.push_str(&part[2..]);
+        }
+        Some(key)
+    }
 }
 
 impl DataStorage for FileSystemStorage {
@@ -276,7 +291,11 @@ impl DataStorage for FileSystemStorage {
             path.push(namespace.as_str());
             if path.try_exists().unwrap() {
                 path.push(Self::file_name(key));
-                Ok(std::fs::read(path.clone()).ok())
+                match std::fs::read(path) {
+                    Ok(value) => Ok(Some(value)),
+                    Err(e) if e.kind() == std::io::ErrorKind::NotFound => Ok(None),
+                    Err(e) => Err(e.to_string()),
+                }
             } else {
                 Ok(None)
             }
@@ -285,8 +304,24 @@ impl DataStorage for FileSystemStorage {
         }
     }
 
-    fn get_all(&self, _namespace: Namespace) -> Result<HashMap<String, Vec<u8>>, String> {
-        Err("Not implemented".to_string())
+    fn get_all(&self, namespace: Namespace) -> Result<HashMap<String, Vec<u8>>, String> {
+        if let Some(ref dir) = self.dir {
+            let mut all = HashMap::new();
+            let path = dir.join(namespace.as_str());
+            if path.try_exists().unwrap() {
+                for entry in std::fs::read_dir(path).map_err(|e| e.to_string())? {
+                    let entry = entry.map_err(|e| e.to_string())?;
+                    if let Some(key) = entry.file_name().to_str().and_then(Self::key) {
+                        let value = std::fs::read(entry.path()).map_err(|e| e.to_string())?;
+                        all.insert(key, value);
+                    }
+                }
+            }
+
+            Ok(all)
+        } else {
+            Err("File path is required".to_string())
+        }
     }
 
     fn insert(&mut self, namespace: Namespace, key: &str, value: &[u8]) -> Result<(), String> {
-- 
2.43.0


From 4126074a4389f2dfad4d6ca9e39ab198ea213c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:48 +0000
Subject: [PATCH 45/58] fix: an interrupted write to the file system storage
 does not leave half a value

---
 oca/src/data_storage.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/oca/src/data_storage.rs b/oca/src/data_storage.rs
index 2308532..ac50027 100644
--- a/oca/src/data_storage.rs
+++ b/oca/src/data_storage.rs
@@ -1,4 +1,5 @@
 use dyn_clonable::*;
+use std::sync::atomic::{AtomicUsize, Ordering};
 use std::{collections::HashMap, path::PathBuf};
 
 pub enum Namespace {
@@ -255,6 +256,13 @@ impl FileSystemStorage {
         }
     }
 
+    /// Name of a file that keeps no key
+    fn temporary_file_name() -> String {
+        static COUNTER: AtomicUsize = AtomicUsize::new(0);
+        let number = COUNTER.fetch_add(1, Ordering::Relaxed);
+        format!("%tmp.{}.{}", std::process::id(), number)
+    }
+
     /// Key kept in the file of that name
     fn key(file_name: &str) -> Option<String> {
         if file_name == "%" {
@@ -332,8 +340,12 @@ impl DataStorage for FileSystemStorage {
                 std::fs::create_dir_all(path.clone()).unwrap();
             }
 
+            // a value is put in place as a whole, an interrupted write leaves the previous one
+            let tmp = path.join(Self::temporary_file_name());
             path.push(Self::file_name(key));
-            std::fs::write(path.clone(), value).map_err(|e| e.to_string())
+            std::fs::write(&tmp, value)
+                .and_then(|_| std::fs::rename(&tmp, &path))
+                .map_err(|e| e.to_string())
         } else {
             Err("File path is required".to_string())
         }
-- 
2.43.0


From 0df983da75d65828d4b65ff732be92c36b640905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:50 +0000
Subject: [PATCH 46/58] fix: a value stored by sled is not lost when the
 process ends within the flush interval

---
 oca/src/data_storage.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/oca/src/data_storage.rs b/oca/src/data_storage.rs
index ac50027..debd1db 100644
--- a/oca/src/data_storage.rs
+++ b/oca/src/data_storage.rs
@@ -135,10 +135,11 @@ impl DataStorage for SledDataStorage {
     fn insert(&mut self, namespace: Namespace, key: &str, value: &[u8]) -> Result<(), String> {
         if let Some(ref db) = self.db {
             let tree = db.open_tree(namespace.as_str().as_bytes()).unwrap();
-            match tree.insert(key.as_bytes(), value) {
-                Ok(_) => Ok(()),
-                Err(e) => Err(e.to_string()),
-            }
+            // what is stored must not be lost if the process ends before sled flushes by itself
+            tree.insert(key.as_bytes(), value)
+                .and_then(|_| tree.flush())
+                .map(|_| ())
+                .map_err(|e| e.to_string())
         } else {
             Err("Data Storage must be opened first".to_string())
         }
-- 
2.43.0


From 2f32d1c28c8e1499d0a000982dd80784cc1fa4dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:44 +0000
Subject: [PATCH 47/58] fix: a version stored by sled is not lost when the
 process ends within the flush interval

---
 semantics/oca-dag/src/data_storage.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/semantics/oca-dag/src/data_storage.rs b/semantics/oca-dag/src/data_storage.rs
index cb065f7..10742ec 100644
--- a/semantics/oca-dag/src/data_storage.rs
+++ b/semantics/oca-dag/src/data_storage.rs
@@ -35,10 +35,11 @@ impl DataStorage for SledDataStorage {
 
     fn insert(&self, key: &str, value: &[u8]) -> Result<(), String> {
         if let Some(ref db) = self.db {
-            match db.insert(key.as_bytes(), value) {
-                Ok(_) => Ok(()),
-                Err(e) => Err(e.to_string()),
-            }
+            // what is stored must not be lost if the process ends before sled flushes by itself
+            db.insert(key.as_bytes(), value)
+                .and_then(|_| db.flush())
+                .map(|_| ())
+                .map_err(|e| e.to_string())
         } else {
             Err("Data Storage must be opened first".to_string())
         }
-- 
2.43.0


From baa7df5a4d09698f13729d83ca1043fd482ed2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:47 +0000
Subject: [PATCH 48/58] fix: a failure to write the search index or the
 listings is reported, not ignored

---
 .../repositories/capture_base_cache_repo.rs   | 10 ++++-----
 oca/src/repositories/oca_bundle_cache_repo.rs |  8 +++----
 oca/src/repositories/oca_bundle_fts_repo.rs   | 22 ++++++++++---------
 3 files changed, 21 insertions(+), 19 deletions(-)

diff --git a/oca/src/repositories/capture_base_cache_repo.rs b/oca/src/repositories/capture_base_cache_repo.rs
index 964604f..503e2ff 100644
--- a/oca/src/repositories/capture_base_cache_repo.rs
+++ b/oca/src/repositories/capture_base_cache_repo.rs
@@ -35,18 +35,18 @@ impl CaptureBaseCacheRepo {
             said TEXT PRIMARY KEY,
             capture_base TEXT
         )"#;
-        let _ = connection.execute(create_table_query, ());
+        connection.execute(create_table_query, ()).unwrap();
 
         Self { connection }
     }
 
     pub fn insert(&self, model: CaptureBaseCacheRecord) {
         let query = r#"
-        INSERT INTO capture_base_cache(said, capture_base)
+        INSERT OR IGNORE INTO capture_base_cache(said, capture_base)
             VALUES (?1, ?2)"#;
-        let _ = self
-            .connection
-            .execute(query, [&model.said, &model.capture_base]);
+        self.connection
+            .execute(query, [&model.said, &model.capture_base])
+            .unwrap();
     }
 
     pub fn fetch_all(&self, limit: usize, page: usize) -> Vec<AllCaptureBaseRecord> {
diff --git a/oca/src/repositories/oca_bundle_cache_repo.rs b/oca/src/repositories/oca_bundle_cache_repo.rs
index 3390a42..80c2a63 100644
--- a/oca/src/repositories/oca_bundle_cache_repo.rs
+++ b/oca/src/repositories/oca_bundle_cache_repo.rs
@@ -45,11 +45,11 @@ impl OCABundleCacheRepo {
 
     pub fn insert(&self, model: OCABundleCacheRecord) {
         let query = r#"
-        INSERT INTO oca_bundle_cache(said, oca_bundle)
+        INSERT OR IGNORE INTO oca_bundle_cache(said, oca_bundle)
             VALUES (?1, ?2)"#;
-        let _ = self
-            .connection
-            .execute(query, [&model.said, &model.oca_bundle]);
+        self.connection
+            .execute(query, [&model.said, &model.oca_bundle])
+            .unwrap();
     }
 
     pub fn fetch_all(&self, limit: usize, page: usize) -> Vec<AllOCABundleRecord> {
diff --git a/oca/src/repositories/oca_bundle_fts_repo.rs b/oca/src/repositories/oca_bundle_fts_repo.rs
index c48e9c7..b0b96ed 100644
--- a/oca/src/repositories/oca_bundle_fts_repo.rs
+++ b/oca/src/repositories/oca_bundle_fts_repo.rs
@@ -51,7 +51,7 @@ impl OCABundleFTSRepo {
 
     pub fn insert(&self, model: OCABundleFTSRecord) {
         let query = r#"
-        INSERT INTO oca_bundle_fts
+        INSERT OR IGNORE INTO oca_bundle_fts
         (rowid, name, description, language_code, oca_bundle_said)
         VALUES (
             (
@@ -60,15 +60,17 @@ impl OCABundleFTSRepo {
                 LIMIT 1
             ), ?1, ?2, ?3, ?4
         )"#;
-        let _ = self.connection.execute(
-            query,
-            [
-                &model.name,
-                &model.description,
-                &model.language_code,
-                &model.oca_bundle_said,
-            ],
-        );
+        self.connection
+            .execute(
+                query,
+                [
+                    &model.name,
+                    &model.description,
+                    &model.language_code,
+                    &model.oca_bundle_said,
+                ],
+            )
+            .unwrap();
     }
 
     pub fn search(
-- 
2.43.0


From e94695f6ac10a2d61f7c70ae035c92eede31097f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:47 +0000
Subject: [PATCH 49/58] fix: a storage error while relations are stored is
 reported, and does not wipe relations

---
 oca/src/facade/build.rs   |  2 +-
 oca/src/facade/explore.rs | 46 +++++++++++++++++++--------------------
 2 files changed, 24 insertions(+), 24 deletions(-)

diff --git a/oca/src/facade/build.rs b/oca/src/facade/build.rs
index 5af1582..f66942e 100644
--- a/oca/src/facade/build.rs
+++ b/oca/src/facade/build.rs
@@ -131,7 +131,7 @@ impl Facade {
             .iter()
             .for_each(|step| self.build_step(step));
 
-        let _ = self.add_relations(oca_build.oca_bundle.clone());
+        self.add_relations(oca_build.oca_bundle.clone()).unwrap();
 
         self.build_models(oca_build);
 
diff --git a/oca/src/facade/explore.rs b/oca/src/facade/explore.rs
index cb7aca1..6bb30b6 100644
--- a/oca/src/facade/explore.rs
+++ b/oca/src/facade/explore.rs
@@ -10,18 +10,18 @@ impl Facade {
     pub fn explore(&self, said: String) -> Option<Relationship> {
         // only identifiers have relations; other keys of the namespace hold other data
         oca_ast_semantics::ast::parse_said(&said).ok()?;
-        let relations_u8_res = self.db.get(Namespace::OCARelations, &said);
-
-        match relations_u8_res {
-            Ok(Some(relations_u8)) => {
-                let relationship: Relationship = relations_u8.into();
-                Some(Relationship {
-                    base_object: OCAObject::new(self, said),
-                    relations: relationship.relations,
-                })
+        self.stored_relations(&said).ok()?
+    }
+
+    fn stored_relations(&self, said: &str) -> Result<Option<Relationship>, String> {
+        let relations_u8 = self.db.get(Namespace::OCARelations, said)?;
+        Ok(relations_u8.map(|relations_u8| {
+            let relationship: Relationship = relations_u8.into();
+            Relationship {
+                base_object: OCAObject::new(self, said.to_string()),
+                relations: relationship.relations,
             }
-            _ => None,
-        }
+        }))
     }
 
     fn insert_oca_objects_metadata(&mut self, oca_bundle: OCABundle) -> Result<(), String> {
@@ -45,8 +45,8 @@ impl Facade {
             })
             .into()],
         )?;
-        oca_bundle.overlays.iter().for_each(|overlay| {
-            let _ = self.db.insert(
+        for overlay in oca_bundle.overlays.iter() {
+            self.db.insert(
                 Namespace::OCARelations,
                 &format!("{}.metadata", overlay.said().clone().unwrap()),
                 &[ObjectKind::Overlay(
@@ -57,8 +57,8 @@ impl Facade {
                     },
                 )
                 .into()],
-            );
-        });
+            )?;
+        }
 
         Ok(())
     }
@@ -70,7 +70,7 @@ impl Facade {
         let capture_base_said = oca_bundle.capture_base.said.clone().unwrap().to_string();
 
         let mut oca_bundle_rel =
-            self.explore(oca_bundle_said.clone())
+            self.stored_relations(&oca_bundle_said)?
                 .unwrap_or(Relationship::new(OCAObject::new(
                     self,
                     oca_bundle_said.clone(),
@@ -78,7 +78,7 @@ impl Facade {
         oca_bundle_rel.add_relation(OCAObject::new(self, capture_base_said.clone()));
 
         let mut capture_base_rel =
-            self.explore(capture_base_said.clone())
+            self.stored_relations(&capture_base_said)?
                 .unwrap_or(Relationship::new(OCAObject::new(
                     self,
                     capture_base_said.clone(),
@@ -91,12 +91,12 @@ impl Facade {
             oca_bundle_rel.add_relation(OCAObject::new(self, overlay_said.clone()));
             capture_base_rel.add_relation(OCAObject::new(self, overlay_said.clone()));
 
-            let mut overlay_rel = self
-                .explore(overlay_said.clone())
-                .unwrap_or(Relationship::new(OCAObject::new(
-                    self,
-                    overlay_said.clone(),
-                )));
+            let mut overlay_rel =
+                self.stored_relations(&overlay_said)?
+                    .unwrap_or(Relationship::new(OCAObject::new(
+                        self,
+                        overlay_said.clone(),
+                    )));
 
             overlay_rel.add_relation(OCAObject::new(self, oca_bundle_said.clone()));
             overlay_rel.add_relation(OCAObject::new(self, capture_base_said.clone()));
-- 
2.43.0


From 6508a03271479b4c594be38ef7394aebb424f4e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:47 +0000
Subject: [PATCH 50/58] fix: a storage error while the base of FROM is read is
 not taken for an unknown base

---
 oca/src/facade/build.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/oca/src/facade/build.rs b/oca/src/facade/build.rs
index f66942e..5daac30 100644
--- a/oca/src/facade/build.rs
+++ b/oca/src/facade/build.rs
@@ -200,6 +200,8 @@ impl Facade {
                     ReferenceAttrType::Reference(refs) => {
                         match refs {
                             RefValue::Said(said) => {
+                                let stored =
+                                    storage.get(Namespace::OCABundlesJSON, &said.to_string());
                                 match get_oca_bundle(storage, said, false) {
                                     Ok(oca_bundle) => {
                                         // TODO
@@ -222,6 +224,10 @@ impl Facade {
                                                 message: e.clone(),
                                             })
                                         });
+                                        // a base that is stored, or may be, has to be read
+                                        if !matches!(stored, Ok(None)) {
+                                            return Err(errors);
+                                        }
                                     }
                                 }
                             }
@@ -414,7 +420,14 @@ impl Facade {
             .steps
             .first()
             .and_then(|step| step.parent_said.clone())
-            .and_then(|base| self.get_oca_bundle_steps(base).ok())
+            .filter(|base| {
+                let operation_key = format!("oca.{}.operation", base);
+                self.db
+                    .get(Namespace::OCA, &operation_key)
+                    .unwrap()
+                    .is_some()
+            })
+            .map(|base| self.get_oca_bundle_steps(base).unwrap())
             .unwrap_or_default();
         let base_steps = steps.len();
         steps.extend(oca_build.steps.iter().map(|step| OCABuildStep {
-- 
2.43.0


From c332d0f5e23e76a1f802231b67c823ab82d153da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:41 +0000
Subject: [PATCH 51/58] fix: a failed query leaves the facade usable

---
 oca/src/facade/mod.rs                           | 11 +++++++++--
 oca/src/repositories/capture_base_cache_repo.rs |  2 +-
 oca/src/repositories/oca_bundle_cache_repo.rs   |  2 +-
 oca/src/repositories/oca_bundle_fts_repo.rs     |  2 +-
 4 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/oca/src/facade/mod.rs b/oca/src/facade/mod.rs
index c2d075e..fd003ef 100644
--- a/oca/src/facade/mod.rs
+++ b/oca/src/facade/mod.rs
@@ -3,7 +3,7 @@ use rusqlite::Params;
 use crate::data_storage::DataStorage;
 use crate::repositories::SQLiteConfig;
 use std::borrow::Borrow;
-use std::sync::{Arc, Mutex};
+use std::sync::{Arc, Mutex, MutexGuard, PoisonError};
 
 pub mod build;
 pub mod bundle;
@@ -28,9 +28,16 @@ impl Connection {
     where
         P: Params,
     {
-        let connection = self.connection.lock().unwrap();
+        let connection = self.lock();
         connection.execute(sql, params)
     }
+
+    /// A failure reported while the connection was in use leaves it usable.
+    pub(crate) fn lock(&self) -> MutexGuard<'_, rusqlite::Connection> {
+        self.connection
+            .lock()
+            .unwrap_or_else(PoisonError::into_inner)
+    }
 }
 
 pub struct Facade {
diff --git a/oca/src/repositories/capture_base_cache_repo.rs b/oca/src/repositories/capture_base_cache_repo.rs
index 503e2ff..0a127af 100644
--- a/oca/src/repositories/capture_base_cache_repo.rs
+++ b/oca/src/repositories/capture_base_cache_repo.rs
@@ -68,7 +68,7 @@ impl CaptureBaseCacheRepo {
         ON true
         GROUP BY said";
 
-        let connection = self.connection.connection.lock().unwrap();
+        let connection = self.connection.lock();
         let mut statement = connection.prepare(query).unwrap();
 
         let models = statement
diff --git a/oca/src/repositories/oca_bundle_cache_repo.rs b/oca/src/repositories/oca_bundle_cache_repo.rs
index 80c2a63..eab8b3b 100644
--- a/oca/src/repositories/oca_bundle_cache_repo.rs
+++ b/oca/src/repositories/oca_bundle_cache_repo.rs
@@ -71,7 +71,7 @@ impl OCABundleCacheRepo {
         ON true
         GROUP BY said";
 
-        let connection = self.connection.connection.lock().unwrap();
+        let connection = self.connection.lock();
         let mut statement = connection.prepare(query).unwrap();
         let models = statement
             .query_map([limit, offset], |row| {
diff --git a/oca/src/repositories/oca_bundle_fts_repo.rs b/oca/src/repositories/oca_bundle_fts_repo.rs
index b0b96ed..39250a1 100644
--- a/oca/src/repositories/oca_bundle_fts_repo.rs
+++ b/oca/src/repositories/oca_bundle_fts_repo.rs
@@ -174,7 +174,7 @@ meta_overlay:{}
             }
         }
 
-        let connection = self.connection.connection.lock().unwrap();
+        let connection = self.connection.lock();
         let mut statement = connection.prepare(sql_query).unwrap();
 
         let mut search = |query: &String| -> rusqlite::Result<Vec<Record>> {
-- 
2.43.0


From 05f2908611ea6eb832332dd1b79a1659741ae671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:47 +0000
Subject: [PATCH 52/58] fix: a box made of a bundle keeps its attribute mapping

---
 semantics/oca-bundle/src/state/oca.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/semantics/oca-bundle/src/state/oca.rs b/semantics/oca-bundle/src/state/oca.rs
index 31789bc..678a240 100644
--- a/semantics/oca-bundle/src/state/oca.rs
+++ b/semantics/oca-bundle/src/state/oca.rs
@@ -736,6 +736,14 @@ impl From<OCABundle> for OCABox {
             }
         }
 
+        let mapping_overlays = oca_bundle
+            .overlays
+            .iter()
+            .filter_map(|x| x.as_any().downcast_ref::<overlay::AttributeMapping>());
+        for overlay in mapping_overlays {
+            oca_box.add_attribute_mapping(overlay.clone());
+        }
+
         let character_encoding_overlays = oca_bundle
             .overlays
             .iter()
-- 
2.43.0


From 5baa337c4ea7cefbcbf451ee22b15a696914ef18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:52 +0000
Subject: [PATCH 53/58] fix: links and framings of a merged attribute are added
 to those it has

---
 semantics/oca-bundle/src/state/attribute.rs | 26 +++++++++++++++------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/semantics/oca-bundle/src/state/attribute.rs b/semantics/oca-bundle/src/state/attribute.rs
index 3677222..e9f5f2e 100644
--- a/semantics/oca-bundle/src/state/attribute.rs
+++ b/semantics/oca-bundle/src/state/attribute.rs
@@ -141,13 +141,8 @@ impl Attribute {
                 self.standards.clone_from(&other.standards);
             }
 
-            if other.links.is_some() {
-                self.links.clone_from(&other.links);
-            }
-
-            if other.framings.is_some() {
-                self.framings.clone_from(&other.framings);
-            }
+            self.merge_links(other);
+            self.merge_framings(other);
         }
     }
 
@@ -161,6 +156,23 @@ impl Attribute {
         }
     }
 
+    fn merge_links(&mut self, other: &Attribute) {
+        if let Some(links) = &other.links {
+            self.links
+                .get_or_insert_with(HashMap::new)
+                .extend(links.clone());
+        }
+    }
+
+    fn merge_framings(&mut self, other: &Attribute) {
+        if let Some(framings) = &other.framings {
+            let merged = self.framings.get_or_insert_with(HashMap::new);
+            for (id, framing) in framings {
+                merged.entry(id.clone()).or_default().extend(framing.clone());
+            }
+        }
+    }
+
     fn merge_category_labels(&mut self, other: &Attribute) {
         if self.category_labels.is_none() {
             self.category_labels.clone_from(&other.category_labels);
-- 
2.43.0


From 7876e171f604c74dc8dd287b316e9558a273efcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:22 +0000
Subject: [PATCH 54/58] fix: a search that cannot read its index fails instead
 of finding nothing

---
 oca/src/repositories/oca_bundle_fts_repo.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/oca/src/repositories/oca_bundle_fts_repo.rs b/oca/src/repositories/oca_bundle_fts_repo.rs
index 39250a1..e61055e 100644
--- a/oca/src/repositories/oca_bundle_fts_repo.rs
+++ b/oca/src/repositories/oca_bundle_fts_repo.rs
@@ -193,7 +193,11 @@ meta_overlay:{}
         };
         let rows = queries
             .iter()
-            .find_map(|query| search(query).ok())
+            .find_map(|query| match search(query) {
+                // not a full-text search expression
+                Err(e) if e.sqlite_error_code() == Some(rusqlite::ErrorCode::Unknown) => None,
+                rows => Some(rows.unwrap()),
+            })
             .unwrap_or_default();
 
         let mut records = vec![];
-- 
2.43.0


From 4a452264cfb958a15c0cd9104b7bc2abdc5aab8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:59 +0000
Subject: [PATCH 55/58] fix: a transformation command's line number is the line
 it is written on

---
 transformation/oca-file/src/ocafile/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/transformation/oca-file/src/ocafile/mod.rs b/transformation/oca-file/src/ocafile/mod.rs
index bc08e84..436bba0 100644
--- a/transformation/oca-file/src/ocafile/mod.rs
+++ b/transformation/oca-file/src/ocafile/mod.rs
@@ -57,7 +57,7 @@ pub fn parse_from_string(unparsed_file: String) -> Result<TransformationAST, Par
 
     let validator = OCAValidator {};
 
-    for (n, line) in file.into_inner().enumerate() {
+    for line in file.into_inner() {
         if let Rule::EOI = line.as_rule() {
             continue;
         }
@@ -100,7 +100,7 @@ pub fn parse_from_string(unparsed_file: String) -> Result<TransformationAST, Par
                     oca_ast.commands_meta.insert(
                         oca_ast.commands.len() - 1,
                         CommandMeta {
-                            line_number: n + 1,
+                            line_number: line.as_span().start_pos().line_col().0,
                             raw_line: line.as_str().to_string(),
                         },
                     );
-- 
2.43.0


From 6299e3cedc184f56194532bc81f8aade5d643216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:08 +0000
Subject: [PATCH 56/58] fix: a line that continues a command is not taken for a
 header line

---
 oca-file/src/ocafile.pest | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/oca-file/src/ocafile.pest b/oca-file/src/ocafile.pest
index 95224f8..a74eff3 100644
--- a/oca-file/src/ocafile.pest
+++ b/oca-file/src/ocafile.pest
@@ -56,10 +56,11 @@ TELUGU | THAANA | THAI | TIBETAN | TIFINAGH | TIRHUTA | TOTO | UGARITIC | VAI |
 VITHKUQI | WANCHO | WARANG_CITI | YEZIDI | YI | ZANABAZAR_SQUARE }
 char = { LETTER | NUMBER | "." | "-" | "_" | "/" | ":" | SCRIPTS }
 
-// any other line, skipped as a whole together with the quoted values in it, so that
-// what stands inside a line or a value is not taken for a meta comment
+// any other line, skipped as a whole together with the quoted values in it and the lines
+// it continues onto, so that what stands inside it is not taken for a meta comment
 quoted_value = _{ ("=" | ":" | "," | "[" | "{") ~ arg_ws? ~ (single_quoted_string | double_quoted_string) }
-content_line = _{ (quoted_value | !NEWLINE ~ ANY)+ ~ NEWLINE? }
+next_frame = _{ "}" ~ NEWLINE ~ arg_ws? ~ (ASCII_ALPHANUMERIC | "-" | "_" | ".")+ ~ arg_ws? ~ "=" ~ arg_ws? ~ &"{" }
+content_line = _{ (quoted_value | line_continuation ~ skipped_line* | next_frame | !NEWLINE ~ ANY)+ ~ NEWLINE? }
 
 file = {
   SOI ~
-- 
2.43.0


From c8a5182fda6f2f80a85864140eb62043e609213f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:08 +0000
Subject: [PATCH 57/58] fix: listing a sled namespace that cannot be read is an
 error, not a shorter list

---
 oca/src/data_storage.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/oca/src/data_storage.rs b/oca/src/data_storage.rs
index debd1db..15ccf89 100644
--- a/oca/src/data_storage.rs
+++ b/oca/src/data_storage.rs
@@ -121,8 +121,8 @@ impl DataStorage for SledDataStorage {
         if let Some(ref db) = self.db {
             let mut all = HashMap::new();
             let tree = db.open_tree(namespace.as_str().as_bytes()).unwrap();
-            let mut iter = tree.iter();
-            while let Some(Ok((key, value))) = iter.next() {
+            for entry in tree.iter() {
+                let (key, value) = entry.map_err(|e| e.to_string())?;
                 all.insert(String::from_utf8(key.to_vec()).unwrap(), value.to_vec());
             }
 
-- 
2.43.0


From 0e7b97012663f683af6d108cdd43e9804e15304f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:23 +0000
Subject: [PATCH 58/58] fix: a package without a bundle can be encoded and
 identified

---
 oca/src/facade/bundle.rs | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/oca/src/facade/bundle.rs b/oca/src/facade/bundle.rs
index 8768165..3cece2c 100644
--- a/oca/src/facade/bundle.rs
+++ b/oca/src/facade/bundle.rs
@@ -62,14 +62,12 @@ impl Bundle {
         let format = SerializationFormats::JSON;
         self.compute_digest(&code, &format);
         // the identifier of the package is the one its encoded form carries
-        if self.structural.is_some() {
-            if let Some(encoded) = self
-                .encode()
-                .ok()
-                .and_then(|encoded| serde_json::from_str::<Self>(&encoded).ok())
-            {
-                self.said = encoded.said;
-            }
+        if let Some(encoded) = self
+            .encode()
+            .ok()
+            .and_then(|encoded| serde_json::from_str::<Self>(&encoded).ok())
+        {
+            self.said = encoded.said;
         }
     }
 
@@ -77,8 +75,12 @@ impl Bundle {
         let code = HashFunctionCode::Blake3_256;
         let format = SerializationFormats::JSON;
 
-        let structural = self.structural.as_ref().unwrap();
-        let structural_str = String::from_utf8(structural.encode(&code, &format).unwrap()).unwrap();
+        let structural_str = match &self.structural {
+            Some(structural) => {
+                String::from_utf8(structural.encode(&code, &format).unwrap()).unwrap()
+            }
+            None => "null".to_string(),
+        };
 
         let mut transformations_str = String::new();
         let mut transformations_iter = self.transformations.iter().peekable();
-- 
2.43.0

