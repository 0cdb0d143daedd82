From 37b94921394be5bcf7bc5a412f2c55ccd3125d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:35 +0000
Subject: [PATCH 01/23] fix: keep reading the file sections after an empty
 section

---
 src/parser/file.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/parser/file.rs b/src/parser/file.rs
index 182c267..385a5f7 100644
--- a/src/parser/file.rs
+++ b/src/parser/file.rs
@@ -38,8 +38,9 @@ impl Parsable for File {
                 cur_section = FileSection::CustomView;
 
             } else if cur_section != FileSection::None {
-                // parse the file item if the line isn't empty
-                if line.is_empty() { break; }
+                // parse the file item if the line isn't empty, a section without any items is
+                // written as an empty line so the sections after it still need to be read
+                if line.is_empty() { line_count += 1; continue; }
 
                 let file_item = FileItem::parse(line)
                     .map_err(|err| FileParseError::FileItemParseError {
-- 
2.43.0


From f9390d9a56a5aa1c708a67d76038c5212d36c03e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:35 +0000
Subject: [PATCH 02/23] fix: separate reconstructed layouts with an empty line
 so they can be parsed back

---
 src/parser/view.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/parser/view.rs b/src/parser/view.rs
index 57ee884..422f842 100644
--- a/src/parser/view.rs
+++ b/src/parser/view.rs
@@ -25,6 +25,8 @@ impl Parsable for View {
         let mut fabs = LinkedHashMap::<String, AndroidView>::new();
 
         while let Some(line) = lines.next() {
+            // layouts are separated with an empty line
+            if line.is_empty() { continue; }
             if !line.starts_with("@") { break; }
 
             let (screen_name, container_type) =
@@ -75,7 +77,9 @@ impl Parsable for View {
                 Ok(reconstructed_layout) => {
                     result.push_str(format!("@{}.xml\n", name).as_str());
                     result.push_str(reconstructed_layout.as_str());
-                    result.push('\n');
+
+                    // a layout must be followed with an empty line
+                    result.push_str("\n\n");
                 }
 
                 Err(err) => {
@@ -88,9 +92,6 @@ impl Parsable for View {
             }
         }
 
-        // separate between the fabs and layouts
-        result.push('\n');
-
         for (name, view) in &self.fabs {
             match view.reconstruct() {
                 Ok(reconstructed_view) => {
-- 
2.43.0


From 356d1d78c2de534c36f1760980113c716fc6f479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:40 +0000
Subject: [PATCH 03/23] fix: report malformed project dates as errors instead
 of panicking

---
 src/parser/serde_util.rs | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/parser/serde_util.rs b/src/parser/serde_util.rs
index d129182..4360b18 100644
--- a/src/parser/serde_util.rs
+++ b/src/parser/serde_util.rs
@@ -1,22 +1,25 @@
 /// de/serialize sketchware's date format into a timestamp using chrono
 pub(crate) mod date_to_timestamp {
     use chrono::{Datelike, NaiveDate, NaiveDateTime, Timelike};
-    use serde::{de, Deserialize, Serializer};
+    use serde::{de, ser, Deserialize, Serializer};
     use serde::de::Error;
 
     pub fn deserialize<'de, D>(deserializer: D) -> Result<u64, D::Error> where D: de::Deserializer<'de> {
         let v = String::deserialize(deserializer)?;
 
-        let year = v[0..4].parse::<i32>().map_err(D::Error::custom)?;
-        let month = v[4..6].parse::<u32>().map_err(D::Error::custom)?;
-        let day = v[6..8].parse::<u32>().map_err(D::Error::custom)?;
-        let hour = v[8..10].parse::<u32>().map_err(D::Error::custom)?;
-        let minute = v[10..12].parse::<u32>().map_err(D::Error::custom)?;
-        let second = v[12..14].parse::<u32>().map_err(D::Error::custom)?;
+        let invalid_date = || D::Error::custom("a date in the format of yyyyMMddHHmmss");
+
+        let year = v.get(0..4).ok_or_else(invalid_date)?.parse::<i32>().map_err(D::Error::custom)?;
+        let month = v.get(4..6).ok_or_else(invalid_date)?.parse::<u32>().map_err(D::Error::custom)?;
+        let day = v.get(6..8).ok_or_else(invalid_date)?.parse::<u32>().map_err(D::Error::custom)?;
+        let hour = v.get(8..10).ok_or_else(invalid_date)?.parse::<u32>().map_err(D::Error::custom)?;
+        let minute = v.get(10..12).ok_or_else(invalid_date)?.parse::<u32>().map_err(D::Error::custom)?;
+        let second = v.get(12..14).ok_or_else(invalid_date)?.parse::<u32>().map_err(D::Error::custom)?;
 
         Ok(
-            NaiveDate::from_ymd(year, month, day)
-                .and_hms(hour, minute, second)
+            NaiveDate::from_ymd_opt(year, month, day)
+                .and_then(|date| date.and_hms_opt(hour, minute, second))
+                .ok_or_else(invalid_date)?
                 .timestamp() as u64
         )
     }
-- 
2.43.0


From 292f83c8ccb4a910624e7df49bab4649f4e9cf24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:42 +0000
Subject: [PATCH 04/23] fix: zero-pad the serialized project date so it can be
 read back

---
 src/parser/serde_util.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/parser/serde_util.rs b/src/parser/serde_util.rs
index 4360b18..63f22ee 100644
--- a/src/parser/serde_util.rs
+++ b/src/parser/serde_util.rs
@@ -25,9 +25,11 @@ pub(crate) mod date_to_timestamp {
     }
 
     pub fn serialize<S>(timestamp: &u64, serializer: S) -> Result<S::Ok, S::Error> where S: Serializer {
-        let date = NaiveDateTime::from_timestamp(*timestamp as i64, 0);
+        let date = NaiveDateTime::from_timestamp_opt(*timestamp as i64, 0)
+            .ok_or_else(|| <S::Error as ser::Error>::custom("timestamp is out of range"))?;
+
         let date_str = format!(
-            "{}{}{}{}{}{}",
+            "{:04}{:02}{:02}{:02}{:02}{:02}",
             date.year(),
             date.month(),
             date.day(),
-- 
2.43.0


From 18692d64ad951cca365d640bdebf4a2055fd5cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:19 +0000
Subject: [PATCH 05/23] fix: don't panic on logic headers that are shorter than
 their section suffix

---
 src/parser/logic.rs | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/parser/logic.rs b/src/parser/logic.rs
index 6eb01ac..2b986d1 100644
--- a/src/parser/logic.rs
+++ b/src/parser/logic.rs
@@ -36,10 +36,13 @@ impl Parsable for Logic {
                 break;
             }
 
-            if line.ends_with("java_var") {
+            // without the @ at the start
+            let header = &line[1..];
+
+            if let Some(screen_name) = header.strip_suffix(".java_var") {
                 // variable pool
                 // read the screen name
-                let screen_name = (&line[1..line.len() - 9]).to_string(); // 8 (length of "java_var") + 1 (the dot)
+                let screen_name = screen_name.to_string();
 
                 // parse variables
                 let variable_pool = variable::VariablePool::parse_iter(&mut lines)
@@ -54,10 +57,10 @@ impl Parsable for Logic {
                     .or_insert_with(||ScreenLogic::new_empty(screen_name.to_owned()))
                     .variables = Some(variable_pool);
 
-            } else if line.ends_with("java_list") {
+            } else if let Some(screen_name) = header.strip_suffix(".java_list") {
                 // list variable pool
                 // get the screen name
-                let screen_name = (&line[1..line.len() - 10]).to_string(); // 9 -> length of "java_list" + 1 (the dot)
+                let screen_name = screen_name.to_string();
 
                 // then parse it
                 let list_variable_pool = list_variable::ListVariablePool::parse_iter(&mut lines)
@@ -73,10 +76,10 @@ impl Parsable for Logic {
                     .or_insert_with(||ScreenLogic::new_empty(screen_name.to_owned()))
                     .list_variables = Some(list_variable_pool);
 
-            } else if line.ends_with("java_components") {
+            } else if let Some(screen_name) = header.strip_suffix(".java_components") {
                 // component pool
                 // get screen name
-                let screen_name = (&line[1..line.len() - 16]).to_string(); // 15 (length of "java_components") + 1 (the dot)
+                let screen_name = screen_name.to_string();
 
                 // then parse it
                 let component_pool = component::ComponentPool::parse_iter(&mut lines)
@@ -92,10 +95,10 @@ impl Parsable for Logic {
                     .or_insert_with(||ScreenLogic::new_empty(screen_name.to_owned()))
                     .components = Some(component_pool);
 
-            } else if line.ends_with("java_events") {
+            } else if let Some(screen_name) = header.strip_suffix(".java_events") {
                 // event pool
                 // get the screen name from the header
-                let screen_name = (&line[1..line.len() - 12]).to_string(); // 11 (length of "java_events") + 1 (the dot)
+                let screen_name = screen_name.to_string();
 
                 // then parse it
                 let event_pool = event::EventPool::parse_iter(&mut lines)
@@ -111,9 +114,9 @@ impl Parsable for Logic {
                     .or_insert_with(||ScreenLogic::new_empty(screen_name.to_owned()))
                     .events = Some(event_pool);
 
-            } else if line.ends_with("java_func") {
+            } else if let Some(screen_name) = header.strip_suffix(".java_func") {
                 // moreblocks pool
-                let screen_name = (&line[1..line.len() - 10]).to_string(); // 9 (length of "java_func") + 1 (the dot)
+                let screen_name = screen_name.to_string();
 
                 // then parse it
                 let more_block_pool = more_block::MoreBlockPool::parse_iter(&mut lines)
-- 
2.43.0


From 5746f4f91e634d1c86e91d770ed8c36b9a689c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:19 +0000
Subject: [PATCH 06/23] fix: don't write an empty section for screens without
 block containers

---
 src/parser/logic.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parser/logic.rs b/src/parser/logic.rs
index 2b986d1..1eade59 100644
--- a/src/parser/logic.rs
+++ b/src/parser/logic.rs
@@ -236,7 +236,10 @@ impl Parsable for Logic {
                 result.push('\n');
             }
 
-            block_containers.push(result);
+            // a screen without any block containers shouldn't leave an empty section behind
+            if !result.is_empty() {
+                block_containers.push(result);
+            }
         }
 
         // stitch them together and boom!
-- 
2.43.0


From 16daa1d92db0806c4f3c59c8795dafb1b5712f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:04 +0000
Subject: [PATCH 07/23] fix: point the substacks of a converted block to their
 first block

---
 src/api/block.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/api/block.rs b/src/api/block.rs
index 3f7089a..67b118b 100644
--- a/src/api/block.rs
+++ b/src/api/block.rs
@@ -181,6 +181,10 @@ impl Blocks {
             let sub_stack1_id = block.sub_stack1
                 .map(|ss1| {
                     let mut ss1_blocks = ss1.to_block_container(*id_counter + 1);
+                    let ss1_first_id = ss1_blocks.0
+                        .first()
+                        .map(|b| b.id.parse::<i32>().unwrap())
+                        .unwrap_or_else(|| -1);
                     let ss1_last_id = ss1_blocks.0
                         .last()
                         .map(|b| b.id.parse::<i32>().unwrap())
@@ -189,12 +193,16 @@ impl Blocks {
                     sub_stack_blocks.append(&mut ss1_blocks.0);
 
                     if ss1_last_id != -1 { *id_counter = ss1_last_id as u32; }
-                    ss1_last_id
+                    ss1_first_id
                 }).unwrap_or_else(|| -1);
 
             let sub_stack2_id = block.sub_stack2
                 .map(|ss2| {
                     let mut ss2_blocks = ss2.to_block_container(*id_counter + 1);
+                    let ss2_first_id = ss2_blocks.0
+                        .first()
+                        .map(|b| b.id.parse::<i32>().unwrap())
+                        .unwrap_or_else(|| -1);
                     let ss2_last_id = ss2_blocks.0
                         .last()
                         .map(|b| b.id.parse::<i32>().unwrap())
@@ -203,7 +211,7 @@ impl Blocks {
                     sub_stack_blocks.append(&mut ss2_blocks.0);
 
                     if ss2_last_id != -1 { *id_counter = ss2_last_id as u32; }
-                    ss2_last_id
+                    ss2_first_id
                 }).unwrap_or_else(|| -1);
 
             /////////
-- 
2.43.0


From d244ce642d4f643f34674b682b0ad15ec1c36084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:05 +0000
Subject: [PATCH 08/23] fix: reference argument blocks by their own id

---
 src/api/block.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/api/block.rs b/src/api/block.rs
index 67b118b..1822ab8 100644
--- a/src/api/block.rs
+++ b/src/api/block.rs
@@ -257,8 +257,8 @@ impl Blocks {
                         match value {
                             ArgValue::Value(val) => val,
                             ArgValue::Block(block) => {
-                                convert_block(&mut block_args, block, &mut id_counter, true);
-                                format!("@{}", id_counter)
+                                let block_id = convert_block(&mut block_args, block, &mut id_counter, true);
+                                format!("@{}", block_id)
                             }
                             ArgValue::BlockPlaceholder { block_id } =>
                                 panic!("tries to convert argument to params but encountered an \
@@ -270,8 +270,8 @@ impl Blocks {
                         match value {
                             ArgValue::Value(val) => val.to_string(),
                             ArgValue::Block(block) => {
-                                convert_block(&mut block_args, block, &mut id_counter, true);
-                                format!("@{}", id_counter)
+                                let block_id = convert_block(&mut block_args, block, &mut id_counter, true);
+                                format!("@{}", block_id)
                             }
                             ArgValue::BlockPlaceholder { block_id } =>
                                 panic!("tries to convert argument to params but encountered an \
@@ -291,12 +291,12 @@ impl Blocks {
                                     BlockType::Argument(ArgumentBlockReturnType::Boolean)
                                 );
 
-                                convert_block(&mut block_args, block, &mut id_counter, true);
-                                format!("@{}", id_counter)
+                                let block_id = convert_block(&mut block_args, block, &mut id_counter, true);
+                                format!("@{}", block_id)
                             },
                             ArgValue::Block(block) => {
-                                convert_block(&mut block_args, block, &mut id_counter, true);
-                                format!("@{}", id_counter)
+                                let block_id = convert_block(&mut block_args, block, &mut id_counter, true);
+                                format!("@{}", block_id)
                             }
                             ArgValue::BlockPlaceholder { block_id } =>
                                 panic!("tries to convert argument to params but encountered an \
@@ -308,8 +308,8 @@ impl Blocks {
                         match value {
                             ArgValue::Value(val) => val.to_string(),
                             ArgValue::Block(block) => {
-                                convert_block(&mut block_args, block, &mut id_counter, true);
-                                format!("@{}", id_counter)
+                                let block_id = convert_block(&mut block_args, block, &mut id_counter, true);
+                                format!("@{}", block_id)
                             }
                             ArgValue::BlockPlaceholder { block_id } =>
                                 panic!("tries to convert argument to params but encountered an \
-- 
2.43.0


From 9f69ddb8a86dbcc4ace834b1ca54d484ae801a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:07 +0000
Subject: [PATCH 09/23] fix: write the type name of list-returning blocks

---
 src/api/block.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/api/block.rs b/src/api/block.rs
index 1822ab8..ec73903 100644
--- a/src/api/block.rs
+++ b/src/api/block.rs
@@ -513,6 +513,10 @@ impl BlockType {
                 Some(type_name.to_string()),
             BlockType::Argument(ArgumentBlockReturnType::Component { type_name }) =>
                 Some(type_name.to_string()),
+            BlockType::Argument(ArgumentBlockReturnType::List { inner_type: ListItem::String }) =>
+                Some("List String".to_string()),
+            BlockType::Argument(ArgumentBlockReturnType::List { inner_type: ListItem::Number }) =>
+                Some("List Number".to_string()),
             _ => None
         }
     }
-- 
2.43.0


From fe1645acc0e471789a6ec46b6d9d706a2e07e2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:09 +0000
Subject: [PATCH 10/23] fix: don't panic on specs with a lone % or a menu
 without a name

---
 src/api/block.rs | 61 +++++++++++++++++++++++++++++++-----------------
 1 file changed, 39 insertions(+), 22 deletions(-)

diff --git a/src/api/block.rs b/src/api/block.rs
index ec73903..214eefe 100644
--- a/src/api/block.rs
+++ b/src/api/block.rs
@@ -614,25 +614,35 @@ impl BlockContent {
     pub fn parse_wo_params(spec: &str) -> Result<Self, BlockContentParseError> {
         let mut items = Vec::new();
         for s in spec.split(" ") {
-            if !s.starts_with("%") {
-                items.push(SpecItem::Text(s.to_string()));
-                continue
-            }
+            // a lone `%` is just a text, it's used by the modulo block: `%d % %d`
+            let param_type = match s.strip_prefix('%').and_then(|param| param.chars().next()) {
+                Some(param_type) => param_type,
+                None => {
+                    items.push(SpecItem::Text(s.to_string()));
+                    continue
+                }
+            };
 
             // check if this thing has a name
             // example: %s.name
-            let has_name = s.chars().nth(2)
-                .map(|c| c == '.' && s.len() > 3)
-                .unwrap_or(false);
-            let name = has_name.then(|| (&s[3..]).to_string());
+            let name = s.get(2..)
+                .and_then(|name| name.strip_prefix('.'))
+                .filter(|name| !name.is_empty())
+                .map(|name| name.to_string());
 
-            let arg = match &s.chars().nth(1).unwrap() {
+            let arg = match param_type {
                 's' => Argument::String { name, value: ArgValue::Empty },
                 'b' => Argument::Boolean { name, value: ArgValue::Empty },
                 'd' => Argument::Number { name, value: ArgValue::Empty },
-                'm' => Argument::Menu { name: name.unwrap(), value: ArgValue::Empty },
+                'm' => Argument::Menu {
+                    name: name.ok_or_else(|| BlockContentParseError::UnknownSpecParam {
+                        name: param_type.to_string(),
+                        full: s.to_string()
+                    })?,
+                    value: ArgValue::Empty
+                },
                 _ => Err(BlockContentParseError::UnknownSpecParam {
-                    name: s.chars().nth(1).unwrap().to_string(),
+                    name: param_type.to_string(),
                     full: s.to_string()
                 })?
             };
@@ -647,19 +657,23 @@ impl BlockContent {
     pub fn parse(spec: String, mut args: Vec<String>) -> Result<Self, BlockContentParseError> {
         let mut items = Vec::new();
         for s in spec.split(" ") {
-            if !s.starts_with("%") {
-                items.push(SpecItem::Text(s.to_string()));
-                continue
-            }
+            // a lone `%` is just a text, it's used by the modulo block: `%d % %d`
+            let param_type = match s.strip_prefix('%').and_then(|param| param.chars().next()) {
+                Some(param_type) => param_type,
+                None => {
+                    items.push(SpecItem::Text(s.to_string()));
+                    continue
+                }
+            };
 
             // check if this thing has a name
             // example: %s.name
-            let has_name = s.chars().nth(2)
-                .map(|c| c == '.' && s.len() > 3)
-                .unwrap_or(false);
-            let name = has_name.then(|| (&s[3..]).to_string());
+            let name = s.get(2..)
+                .and_then(|name| name.strip_prefix('.'))
+                .filter(|name| !name.is_empty())
+                .map(|name| name.to_string());
 
-            let arg = match &s.chars().nth(1).unwrap() {
+            let arg = match param_type {
                 's' => Argument::String {
                     name,
                     value: {
@@ -723,7 +737,10 @@ impl BlockContent {
                     }
                 },
                 'm' => Argument::Menu {
-                    name: name.unwrap(),
+                    name: name.ok_or_else(|| BlockContentParseError::UnknownSpecParam {
+                        name: param_type.to_string(),
+                        full: s.to_string()
+                    })?,
                     value: {
                         if args.is_empty() { Err(BlockContentParseError::RanOutOfArgs)? }
                         ArgValue::Value(
@@ -732,7 +749,7 @@ impl BlockContent {
                     }
                 },
                 _ => Err(BlockContentParseError::UnknownSpecParam {
-                    name: s.chars().nth(1).unwrap().to_string(),
+                    name: param_type.to_string(),
                     full: s.to_string()
                 })?
             };
-- 
2.43.0


From d268fae0336df8c7b431b554176199890fc56e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:10 +0000
Subject: [PATCH 11/23] fix: read block references of menu arguments

---
 src/api/block.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/api/block.rs b/src/api/block.rs
index 214eefe..08d4a18 100644
--- a/src/api/block.rs
+++ b/src/api/block.rs
@@ -743,9 +743,16 @@ impl BlockContent {
                     })?,
                     value: {
                         if args.is_empty() { Err(BlockContentParseError::RanOutOfArgs)? }
-                        ArgValue::Value(
-                            args.remove(0)
-                        )
+                        let value = args.remove(0);
+
+                        if value.starts_with("@") {
+                            ArgValue::BlockPlaceholder {
+                                block_id: (&value[1..]).parse()
+                                    .map_err(|_| BlockContentParseError::InvalidBlockId {
+                                        value
+                                    })?
+                            }
+                        } else { ArgValue::Value(value) }
                     }
                 },
                 _ => Err(BlockContentParseError::UnknownSpecParam {
-- 
2.43.0


From 465468fd6867b27bd1d38612afe9e7d2ebe901f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:12 +0000
Subject: [PATCH 12/23] fix: read the empty number and boolean arguments that
 are written for ArgValue::Empty

---
 src/api/block.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/api/block.rs b/src/api/block.rs
index 08d4a18..923d2a6 100644
--- a/src/api/block.rs
+++ b/src/api/block.rs
@@ -703,6 +703,8 @@ impl BlockContent {
                                         value
                                     })?
                             }
+                        } else if value.is_empty() {
+                            ArgValue::Empty
                         } else {
                             let value = value.parse()
                                 .map_err(|_| BlockContentParseError::InvalidBooleanArgument {
@@ -726,6 +728,8 @@ impl BlockContent {
                                         value
                                     })?
                             }
+                        } else if value.is_empty() {
+                            ArgValue::Empty
                         } else {
                             let value = value.parse()
                                 .map_err(|_| BlockContentParseError::InvalidNumberArgument {
@@ -805,6 +809,8 @@ impl BlockContent {
                                                 value
                                             })?
                                     }
+                                } else if value.is_empty() {
+                                    ArgValue::Empty
                                 } else {
                                     let value = value.parse()
                                         .map_err(|_| BlockContentParseError::InvalidNumberArgument {
@@ -830,6 +836,8 @@ impl BlockContent {
                                                 value
                                             })?
                                     }
+                                } else if value.is_empty() {
+                                    ArgValue::Empty
                                 } else {
                                     let value = value.parse()
                                         .map_err(|_| BlockContentParseError::InvalidBooleanArgument {
-- 
2.43.0


From 32b438d9ac062e5d44521c89a026504b7c1dee0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:30 +0000
Subject: [PATCH 13/23] fix: keep the resource files of projects that have them

---
 src/api/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/api/mod.rs b/src/api/mod.rs
index 20d8268..dc604b4 100644
--- a/src/api/mod.rs
+++ b/src/api/mod.rs
@@ -763,7 +763,7 @@ impl From<SketchwareProject> for ParsedSketchwareProject {
                 fabs
             },
             logic: parser::logic::Logic { screens: logic_screens },
-            resource_files: val.automatic_res_file_ids.then(|| ResourceFiles {
+            resource_files: (!val.automatic_res_file_ids).then(|| ResourceFiles {
                 custom_icon: val.custom_icon,
                 images: image_resource_files,
                 sounds: sound_resource_files,
-- 
2.43.0


From 5024af9e518ade39bb6eeb6a3cb2167a867a2a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:31 +0000
Subject: [PATCH 14/23] fix: reject resource ids that are taken by a sound or a
 font

---
 src/api/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/api/mod.rs b/src/api/mod.rs
index dc604b4..17f05ce 100644
--- a/src/api/mod.rs
+++ b/src/api/mod.rs
@@ -205,7 +205,9 @@ impl Resources {
         }
 
         // check if there is already a resource file with this id
-        if self.images.contains_key(&id) {
+        if self.images.contains_key(&id)
+            || self.sounds.contains_key(&id)
+            || self.fonts.contains_key(&id) {
             return Err(ResourceAdditionError::IdTaken { id });
         }
 
-- 
2.43.0


From 0622c0f336deb30e93fcb80d053327c0913edd57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:33 +0000
Subject: [PATCH 15/23] fix: give screens without any logic their java name

---
 src/api/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/api/mod.rs b/src/api/mod.rs
index 17f05ce..88b4751 100644
--- a/src/api/mod.rs
+++ b/src/api/mod.rs
@@ -355,7 +355,7 @@ impl TryFrom<ParsedSketchwareProject> for SketchwareProject {
                 // if it can't find any logic then create an empty ScreenLogic
                 let logic = val.logic.screens
                     .remove(view_name_to_logic(name.as_str()).as_str())
-                    .unwrap_or_else(||ScreenLogic::new_empty(file_entry.filename.clone()));
+                    .unwrap_or_else(||ScreenLogic::new_empty(view_name_to_logic(name.as_str())));
 
                 // get our fab (if we have one)
                 let fab = val.view.fabs
-- 
2.43.0


From 92f31a894458b8b518ad9644d7420348341b7ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:35 +0000
Subject: [PATCH 16/23] fix: don't add a second onCreate event when the event
 pool already has one

---
 src/api/screen.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/api/screen.rs b/src/api/screen.rs
index f40a854..2103e64 100644
--- a/src/api/screen.rs
+++ b/src/api/screen.rs
@@ -198,12 +198,15 @@ impl Screen {
             // make an event pool if there is none
             if logic_entry.events.is_none() { logic_entry.events = Some(EventPool::default()) }
             if let Some(events) = &mut logic_entry.events {
-                events.0.insert(0, ParserEvent {
-                    event_name: "onCreate".to_string(),
-                    event_type: 3,
-                    target_id: "onCreate".to_string(),
-                    target_type: 0
-                })
+                // don't define it twice if it's already there
+                if !events.0.iter().any(|event| event.event_type == 3 && event.event_name == "onCreate") {
+                    events.0.insert(0, ParserEvent {
+                        event_name: "onCreate".to_string(),
+                        event_type: 3,
+                        target_id: "onCreate".to_string(),
+                        target_type: 0
+                    })
+                }
             }
         }
 
-- 
2.43.0


From 38464915a0ed6a83a314ae904b1464e7857975e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:54 +0000
Subject: [PATCH 17/23] fix: return the type ids that views are actually parsed
 from

---
 src/api/view.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/api/view.rs b/src/api/view.rs
index 1b26de5..7a03e8b 100644
--- a/src/api/view.rs
+++ b/src/api/view.rs
@@ -324,7 +324,8 @@ impl ViewType {
     pub fn get_type_id(&self) -> u8 {
         match self {
             ViewType::LinearLayout { .. }   => 0,
-            ViewType::ScrollView { .. }     => 2,
+            ViewType::ScrollView { orientation: Orientation::Horizontal, .. } => 2,
+            ViewType::ScrollView { .. }     => 12,
             ViewType::Button { .. }         => 3,
             ViewType::TextView { .. }       => 4,
             ViewType::EditText { .. }       => 5,
@@ -334,12 +335,12 @@ impl ViewType {
             ViewType::ListView { .. }       => 9,
             ViewType::Spinner { .. }        => 10,
             ViewType::CheckBox { .. }       => 11,
-            ViewType::Switch { .. }         => 12,
-            ViewType::SeekBar { .. }        => 13,
-            ViewType::CalendarView { .. }   => 14,
-            ViewType::Fab { .. }            => 15,
-            ViewType::AdView { .. }         => 16,
-            ViewType::MapView               => 17,
+            ViewType::Switch { .. }         => 13,
+            ViewType::SeekBar { .. }        => 14,
+            ViewType::CalendarView { .. }   => 15,
+            ViewType::Fab { .. }            => 16,
+            ViewType::AdView { .. }         => 17,
+            ViewType::MapView               => 18,
         }
     }
 
-- 
2.43.0


From 8ebc205f22883d52051938a408813ac168e28854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:55 +0000
Subject: [PATCH 18/23] fix: write the type id of the view type when flattening
 views

---
 src/api/view.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/api/view.rs b/src/api/view.rs
index 7a03e8b..a828123 100644
--- a/src/api/view.rs
+++ b/src/api/view.rs
@@ -547,6 +547,8 @@ pub fn flatten_views(views: Vec<View>, parent_id: Option<String>, parent_type: O
             result_view.r#type
         };
 
+        result_view.r#type = view_type_id;
+
         // and then just map the variables
         result_view.layout.height = view.height;
         result_view.layout.width = view.width;
-- 
2.43.0


From aececcb094209a7810d21ecfb604aa0bc676645a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:07 +0000
Subject: [PATCH 19/23] fix: don't saturate colors that are stored as unsigned
 integers

---
 src/color.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/color.rs b/src/color.rs
index eaa9af6..db0f55b 100644
--- a/src/color.rs
+++ b/src/color.rs
@@ -89,7 +89,7 @@ impl<'de> Deserialize<'de> for Color {
                 // this weird conversion is here to preserve the binary formation of the value.
                 // the conversion from f64 to u32 right would break the negative value and thus
                 // breaks the color
-                Ok(Color::from(v as i32 as u32))
+                Ok(Color::from(v as i64 as u32))
             }
         }
 
-- 
2.43.0


From c6108b2c4ae7d7cba7ace5b6c0cceca0b28279e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:13 +0000
Subject: [PATCH 20/23] fix: only leave the onCreate activity event out of the
 written event pool

---
 src/api/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/api/mod.rs b/src/api/mod.rs
index 88b4751..9d8f774 100644
--- a/src/api/mod.rs
+++ b/src/api/mod.rs
@@ -578,7 +578,7 @@ impl From<SketchwareProject> for ParsedSketchwareProject {
 
                         // drop this event if its onCreate, but preserve the block container
                         // see `api::screen::Screen::from_parsed` comments for more explanation
-                        if event.event_name == "onCreate" { return None; }
+                        if event.event_type == 3 && event.event_name == "onCreate" { return None; }
 
                         Some(event)
                     })
-- 
2.43.0


From 7874dc1081917778d9a440513acc51bea4de0b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:28 +0000
Subject: [PATCH 21/23] fix: report the text of the fab that couldn't be
 parsed, not its header

---
 src/parser/view.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/parser/view.rs b/src/parser/view.rs
index 422f842..2ce2c10 100644
--- a/src/parser/view.rs
+++ b/src/parser/view.rs
@@ -48,17 +48,17 @@ impl Parsable for View {
                 layouts.insert(screen_name.to_string(), screen);
 
             } else if *container_type == "xml_fab" {
-                let fab_view =
-                    AndroidView::parse(
-                        lines.next()
-                            .ok_or_else(|| ViewParseError::EOFAfterFabHeader {
-                                screen_name: screen_name.to_string(),
-                                line: lines.get_count()
-                            })?
-                    ).map_err(|err| ViewParseError::FabParseError {
+                let fab_line = lines.next()
+                    .ok_or_else(|| ViewParseError::EOFAfterFabHeader {
+                        screen_name: screen_name.to_string(),
+                        line: lines.get_count()
+                    })?;
+
+                let fab_view = AndroidView::parse(fab_line)
+                    .map_err(|err| ViewParseError::FabParseError {
                         screen_name: screen_name.to_string(),
                         line: lines.get_count(),
-                        content: line.to_string(),
+                        content: fab_line.to_string(),
                         source: err
                     })?;
 
-- 
2.43.0


From 098360d0009fe4657c4157852636bd38efcae3c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:54 +0000
Subject: [PATCH 22/23] fix: name the id that is taken in the error, rather
 than a literal 0

---
 src/api/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/api/mod.rs b/src/api/mod.rs
index 9d8f774..8bdf13b 100644
--- a/src/api/mod.rs
+++ b/src/api/mod.rs
@@ -228,7 +228,7 @@ impl Resources {
 
 #[derive(Error, Debug)]
 pub enum ResourceAdditionError {
-    #[error("resource id `{}` is already taken", 0.0)]
+    #[error("resource id `{}` is already taken", .id.0)]
     IdTaken { id: ResourceId },
 
     #[error("file `{path:?}` does not exist")]
-- 
2.43.0


From cf11117b54e9c66b49cbd5b9a552ecbf2cc7a6fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:10 +0000
Subject: [PATCH 23/23] fix: keep the blanks at the end of a moreblock's spec
 when writing it

---
 src/parser/logic.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parser/logic.rs b/src/parser/logic.rs
index 1eade59..f0b5471 100644
--- a/src/parser/logic.rs
+++ b/src/parser/logic.rs
@@ -250,8 +250,8 @@ impl Parsable for Logic {
             .chain(event_containers)
             .chain(more_block_containers)
             .chain(block_containers)
-            .fold(String::new(), |acc, i| format!("{}\n\n{}", acc, i.trim()))
-            .trim()
+            .fold(String::new(), |acc, i| format!("{}\n\n{}", acc, i.trim_end_matches('\n')))
+            .trim_start_matches('\n')
             .to_string()
         )
     }
@@ -821,7 +821,7 @@ pub mod more_block {
                 .try_fold(String::new(), |ac, i| {
                     Ok(format!("{}\n{}", ac, i.reconstruct().unwrap() /* this will never error */))
                 })?
-                .trim()
+                .trim_start_matches('\n')
                 .to_string())
         }
     }
-- 
2.43.0

