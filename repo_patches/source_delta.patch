From 14018798758b119247d30d36dd60d340457b4b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:10 +0000
Subject: [PATCH 01/58] fix: read "true" as well as "1" for row, cell and
 column flags

---
 .../spreadsheet_2007/parts/worksheet.rs       | 24 +++++++++----------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
index 0836483..6127673 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
@@ -645,10 +645,10 @@ fn deserialize_cols(
                         }
                         if let Some(best_fit) = attributes.get("bestFit") {
                             column_properties.best_fit =
-                                if best_fit == "1" { Some(true) } else { None }
+                                if ConverterUtil::normalize_bool_property_bool(best_fit) { Some(true) } else { None }
                         }
                         if let Some(hidden) = attributes.get("hidden") {
-                            column_properties.hidden = if hidden == "1" { Some(true) } else { None }
+                            column_properties.hidden = if ConverterUtil::normalize_bool_property_bool(hidden) { Some(true) } else { None }
                         }
                         if let Some(style) = attributes.get("style") {
                             column_properties.style_id = Some(StyleId::new(
@@ -660,7 +660,7 @@ fn deserialize_cols(
                                 outline_level.parse().context("Failed to parse style ID")?;
                         }
                         if let Some(custom_width) = attributes.get("customWidth") {
-                            if custom_width == "1" {
+                            if ConverterUtil::normalize_bool_property_bool(custom_width) {
                                 column_properties.width = Some(
                                     attributes
                                         .get("width")
@@ -672,7 +672,7 @@ fn deserialize_cols(
                         }
                         if let Some(collapsed) = attributes.get("collapsed") {
                             column_properties.collapsed =
-                                if collapsed == "1" { Some(true) } else { None }
+                                if ConverterUtil::normalize_bool_property_bool(collapsed) { Some(true) } else { None }
                         }
                         column_collection.push_back(column_properties);
                     }
@@ -856,7 +856,7 @@ fn deserialize_sheet_data(
                         }
                         if let Some(style_id) = row_attribute.get("s") {
                             if let Some(custom_formant) = row_attribute.get("customFormat") {
-                                row_record.style_id = if custom_formant == "1" {
+                                row_record.style_id = if ConverterUtil::normalize_bool_property_bool(custom_formant) {
                                     Some(StyleId::new(
                                         style_id
                                             .parse()
@@ -868,11 +868,11 @@ fn deserialize_sheet_data(
                             }
                         }
                         if let Some(hidden) = row_attribute.get("hidden") {
-                            row_record.hidden = if hidden == "1" { Some(true) } else { None };
+                            row_record.hidden = if ConverterUtil::normalize_bool_property_bool(hidden) { Some(true) } else { None };
                         }
                         if let Some(height) = row_attribute.get("ht") {
                             if let Some(custom_height) = row_attribute.get("customHeight") {
-                                row_record.height = if custom_height == "1" {
+                                row_record.height = if ConverterUtil::normalize_bool_property_bool(custom_height) {
                                     Some(height.parse().context("Failed to parse the row height")?)
                                 } else {
                                     None
@@ -890,20 +890,20 @@ fn deserialize_sheet_data(
                             };
                         }
                         if let Some(collapsed) = row_attribute.get("collapsed") {
-                            row_record.collapsed = if collapsed == "1" { Some(true) } else { None };
+                            row_record.collapsed = if ConverterUtil::normalize_bool_property_bool(collapsed) { Some(true) } else { None };
                         }
                         if let Some(thick_top) = row_attribute.get("thickTop") {
-                            row_record.thick_top = if thick_top == "1" { Some(true) } else { None };
+                            row_record.thick_top = if ConverterUtil::normalize_bool_property_bool(thick_top) { Some(true) } else { None };
                         }
                         if let Some(thick_bottom) = row_attribute.get("thickBot") {
-                            row_record.thick_bottom = if thick_bottom == "1" {
+                            row_record.thick_bottom = if ConverterUtil::normalize_bool_property_bool(thick_bottom) {
                                 Some(true)
                             } else {
                                 None
                             };
                         }
                         if let Some(place_holder) = row_attribute.get("ph") {
-                            row_record.place_holder = if place_holder == "1" {
+                            row_record.place_holder = if ConverterUtil::normalize_bool_property_bool(place_holder) {
                                 Some(true)
                             } else {
                                 None
@@ -953,7 +953,7 @@ fn deserialize_sheet_data(
                                             )?);
                                     };
                                     if let Some(place_holder) = cell_attribute.get("ph") {
-                                        cell_record.place_holder = if place_holder == "1" {
+                                        cell_record.place_holder = if ConverterUtil::normalize_bool_property_bool(place_holder) {
                                             Some(true)
                                         } else {
                                             None
-- 
2.43.0


From 43dad91b73e41a5bc0cf5fdecbce6fa5564b2740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:10 +0000
Subject: [PATCH 02/58] fix: do not write row, cell and column flags that are
 switched off as on

---
 .../spreadsheet_2007/parts/worksheet.rs          | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
index 6127673..9c0ef90 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
@@ -364,10 +364,10 @@ impl WorkSheet {
                         if let Some(style_id) = item.style_id {
                             attribute.insert("style".to_string(), style_id.id.to_string());
                         }
-                        if let Some(_) = item.hidden {
+                        if item.hidden == Some(true) {
                             attribute.insert("hidden".to_string(), "1".to_string());
                         }
-                        if let Some(_) = item.best_fit {
+                        if item.best_fit == Some(true) {
                             attribute.insert("bestFit".to_string(), "1".to_string());
                         }
                         xml_doc_mut
@@ -519,22 +519,22 @@ impl WorkSheet {
                     row_attribute.insert("customHeight".to_string(), "1".to_string());
                     row_attribute.insert("ht".to_string(), row_height.to_string());
                 }
-                if let Some(_) = db_row.row_record.hidden {
+                if db_row.row_record.hidden == Some(true) {
                     row_attribute.insert("hidden".to_string(), "1".to_string());
                 }
                 if let Some(row_group_level) = db_row.row_record.group_level {
                     row_attribute.insert("outlineLevel".to_string(), row_group_level.to_string());
                 }
-                if let Some(_) = db_row.row_record.collapsed {
+                if db_row.row_record.collapsed == Some(true) {
                     row_attribute.insert("collapsed".to_string(), "1".to_string());
                 }
-                if let Some(_) = db_row.row_record.thick_top {
+                if db_row.row_record.thick_top == Some(true) {
                     row_attribute.insert("thickTop".to_string(), "1".to_string());
                 }
-                if let Some(_) = db_row.row_record.thick_bottom {
+                if db_row.row_record.thick_bottom == Some(true) {
                     row_attribute.insert("thickBot".to_string(), "1".to_string());
                 }
-                if let Some(_) = db_row.row_record.place_holder {
+                if db_row.row_record.place_holder == Some(true) {
                     row_attribute.insert("ph".to_string(), "1".to_string());
                 }
                 row_element
@@ -572,7 +572,7 @@ impl WorkSheet {
                         if let Some(cell_metadata) = cell_record.metadata {
                             cell_attribute.insert("vm".to_string(), cell_metadata.to_string());
                         }
-                        if let Some(_) = cell_record.place_holder {
+                        if cell_record.place_holder == Some(true) {
                             cell_attribute.insert("ph".to_string(), "1".to_string());
                         }
                         cell_element
-- 
2.43.0


From eebbf9b24af0ff32a65952633938069a82e3b6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:49 +0000
Subject: [PATCH 03/58] fix: keep the width of columns whose width is not
 marked custom

---
 .../spreadsheet_2007/models/worksheet.rs      |  3 +++
 .../spreadsheet_2007/parts/worksheet.rs       | 23 ++++++++++---------
 2 files changed, 15 insertions(+), 11 deletions(-)

diff --git a/rs/src/spreadsheet/spreadsheet_2007/models/worksheet.rs b/rs/src/spreadsheet/spreadsheet_2007/models/worksheet.rs
index c6a521f..01fe7a4 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/models/worksheet.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/models/worksheet.rs
@@ -63,6 +63,8 @@ pub struct ColumnProperties {
     pub(crate) max: u16,
     // width value
     pub width: Option<f32>,
+    // width was recorded by the application and not customised by the user
+    pub(crate) auto_width: bool,
     // hide the specific column
     pub hidden: Option<bool>,
     // Column level style setting
@@ -86,6 +88,7 @@ impl Default for ColumnProperties {
             hidden: None,
             style_id: None,
             width: None,
+            auto_width: false,
         }
     }
 }
diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
index 9c0ef90..e431196 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
@@ -358,7 +358,9 @@ impl WorkSheet {
                         attribute.insert("min".to_string(), item.min.to_string());
                         attribute.insert("max".to_string(), item.max.to_string());
                         if let Some(width) = item.width {
-                            attribute.insert("customWidth".to_string(), "1".to_string());
+                            if !item.auto_width {
+                                attribute.insert("customWidth".to_string(), "1".to_string());
+                            }
                             attribute.insert("width".to_string(), width.to_string());
                         }
                         if let Some(style_id) = item.style_id {
@@ -659,17 +661,16 @@ fn deserialize_cols(
                             column_properties.group_level =
                                 outline_level.parse().context("Failed to parse style ID")?;
                         }
-                        if let Some(custom_width) = attributes.get("customWidth") {
-                            if ConverterUtil::normalize_bool_property_bool(custom_width) {
-                                column_properties.width = Some(
-                                    attributes
-                                        .get("width")
-                                        .ok_or(anyhow!("Failed to get custom width"))?
-                                        .parse()
-                                        .context("Failed to parse custom width")?,
-                                );
-                            }
+                        if let Some(width) = attributes.get("width") {
+                            column_properties.width =
+                                Some(width.parse().context("Failed to parse column width")?);
                         }
+                        column_properties.auto_width =
+                            if let Some(custom_width) = attributes.get("customWidth") {
+                                !ConverterUtil::normalize_bool_property_bool(custom_width)
+                            } else {
+                                true
+                            };
                         if let Some(collapsed) = attributes.get("collapsed") {
                             column_properties.collapsed =
                                 if ConverterUtil::normalize_bool_property_bool(collapsed) { Some(true) } else { None }
-- 
2.43.0


From ecd24fb86d168bf992f072d621c6e95d8985326d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:49 +0000
Subject: [PATCH 04/58] fix: write the outline level and collapsed flag of
 columns

---
 rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
index e431196..40b84c7 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
@@ -372,6 +372,13 @@ impl WorkSheet {
                         if item.best_fit == Some(true) {
                             attribute.insert("bestFit".to_string(), "1".to_string());
                         }
+                        if item.group_level > 0 {
+                            attribute
+                                .insert("outlineLevel".to_string(), item.group_level.to_string());
+                        }
+                        if item.collapsed == Some(true) {
+                            attribute.insert("collapsed".to_string(), "1".to_string());
+                        }
                         xml_doc_mut
                             .append_child_mut("col", Some(&cols_id))
                             .context("Failed to insert col record")?
-- 
2.43.0


From 57bded1d7ce6ef17f8fe116c4ebcf9caefe8ac86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:49 +0000
Subject: [PATCH 05/58] fix: do not add another default view to a sheet that
 has views

---
 rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
index 40b84c7..0ecaed1 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
@@ -702,6 +702,8 @@ fn deserialize_worksheet_views(
     if let Some(mut sheet_views_elements) = xml_doc_mut.pop_elements_by_tag_mut("sheetViews", None)
     {
         if let Some(sheet_views_element) = sheet_views_elements.pop() {
+            // The default view is only for sheets without views of their own
+            worksheet_views.view_collection.clear();
             loop {
                 if let Some((element_id, element_tag)) = sheet_views_element.pop_child_mut() {
                     // Validate element that are not accounted
-- 
2.43.0


From f2dad7e56d67a1ee265bdfce5ba10045cf06f289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:25 +0000
Subject: [PATCH 06/58] fix: write sheet views in the order they were read

---
 rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
index 0ecaed1..103ed21 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
@@ -101,13 +101,13 @@ impl Default for WorkSheetView {
 
 #[derive(Debug)]
 pub(crate) struct WorkSheetViews {
-    view_collection: Vec<WorkSheetView>,
+    view_collection: VecDeque<WorkSheetView>,
 }
 
 impl Default for WorkSheetViews {
     fn default() -> Self {
         Self {
-            view_collection: vec![WorkSheetView::default()],
+            view_collection: VecDeque::from([WorkSheetView::default()]),
         }
     }
 }
@@ -399,7 +399,7 @@ impl WorkSheet {
             .context("Failed to Insert Sheet Views Element")?
             .get_id();
         loop {
-            if let Some(sheet_view) = self.sheet_views.view_collection.pop() {
+            if let Some(sheet_view) = self.sheet_views.view_collection.pop_front() {
                 let mut attribute: HashMap<String, String> = HashMap::new();
                 attribute.insert("workbookViewId".to_string(), sheet_view.workbook_view_id);
                 if let Some(window_protection) = sheet_view.window_protection {
@@ -828,7 +828,7 @@ fn deserialize_worksheet_views(
                                     .context("Failed to Convert Zoom Normal to i16")?,
                             );
                         }
-                        worksheet_views.view_collection.push(worksheet_view);
+                        worksheet_views.view_collection.push_back(worksheet_view);
                     }
                 } else {
                     break;
-- 
2.43.0


From 0fbb463f0198ce1203a2a4964e503f052e1ff47f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:25 +0000
Subject: [PATCH 07/58] fix: apply column settings also without column records,
 keep split ranges intact and sorted

---
 .../spreadsheet_2007/models/worksheet.rs         |  2 +-
 .../spreadsheet_2007/parts/worksheet.rs          | 16 ++++++++++++----
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/rs/src/spreadsheet/spreadsheet_2007/models/worksheet.rs b/rs/src/spreadsheet/spreadsheet_2007/models/worksheet.rs
index 01fe7a4..95bc93e 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/models/worksheet.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/models/worksheet.rs
@@ -55,7 +55,7 @@ pub struct RowProperties {
     pub(crate) span: Option<String>,
 }
 
-#[derive(Debug)]
+#[derive(Debug, Clone)]
 pub struct ColumnProperties {
     // Start Column index
     pub(crate) min: u16,
diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
index 103ed21..43332a7 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
@@ -1159,7 +1159,8 @@ impl WorkSheet {
         col_index: &u16,
         column_properties: Option<ColumnProperties>,
     ) -> AnyResult<(), AnyError> {
-        if let Some(column_collection) = self.column_collection.as_mut() {
+        if column_properties.is_some() || self.column_collection.is_some() {
+            let column_collection = self.column_collection.get_or_insert_with(VecDeque::new);
             let mut new_ranges = VecDeque::new();
             // Delete Old Record
             column_collection.retain_mut(|range| {
@@ -1179,7 +1180,7 @@ impl WorkSheet {
                         new_ranges.push_back(ColumnProperties {
                             min: col_index + 1,
                             max: range.max,
-                            ..ColumnProperties::default()
+                            ..range.clone()
                         });
                         range.max = col_index - 1;
                     }
@@ -1187,13 +1188,20 @@ impl WorkSheet {
                 true
             });
             if let Some(column_properties) = column_properties {
-                column_collection.push_back(ColumnProperties {
+                new_ranges.push_front(ColumnProperties {
                     max: *col_index,
                     min: *col_index,
                     ..column_properties
                 });
             }
-            column_collection.append(&mut new_ranges);
+            // Keep the records in column order
+            let position = column_collection
+                .iter()
+                .position(|range| range.min > *col_index)
+                .unwrap_or(column_collection.len());
+            for (offset, range) in new_ranges.into_iter().enumerate() {
+                column_collection.insert(position + offset, range);
+            }
         }
         Ok(())
     }
-- 
2.43.0


From a08cf39e6fc7a55ca01050a26932154054ddc511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:20 +0000
Subject: [PATCH 08/58] fix: do not type texts such as "NaN", "inf" or "1e400"
 as numbers

---
 rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
index 43332a7..c23a04d 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
@@ -1262,7 +1262,7 @@ impl WorkSheet {
             if let Some(cell_value) = cell_data.value.as_ref() {
                 match cell_data.data_type {
                     CellDataType::Auto => {
-                        if cell_value.parse::<f64>().is_ok() {
+                        if cell_value.parse::<f64>().is_ok_and(|number| number.is_finite()) {
                             cell_data.data_type = CellDataType::Number;
                         } else if cell_value.parse::<bool>().is_ok() {
                             cell_data.data_type = CellDataType::Boolean;
-- 
2.43.0


From 47fbc5fdc60225f9c3ff179f1cccd897183d8eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:20 +0000
Subject: [PATCH 09/58] fix: reject cell positions outside the worksheet
 instead of panicking

---
 rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
index c23a04d..aa4fd5e 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
@@ -1256,6 +1256,13 @@ impl WorkSheet {
         mut col_index: u16,
         mut column_cell: Vec<CellProperties>,
     ) -> AnyResult<(), AnyError> {
+        if row_index == 0
+            || row_index > 1048576
+            || col_index == 0
+            || col_index as usize + column_cell.len() > 16385
+        {
+            return Err(anyhow!("Cell position is outside the worksheet"));
+        }
         // Map Start Normalization
         col_index -= 1;
         for cell_data in column_cell.iter_mut() {
-- 
2.43.0


From 0407238e16fe9049d79b4635c281722324c8d913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:20 +0000
Subject: [PATCH 10/58] fix: reject column names that are not one to three
 ASCII letters

---
 rs/src/utils/converters.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rs/src/utils/converters.rs b/rs/src/utils/converters.rs
index 57a2509..b7bef5b 100644
--- a/rs/src/utils/converters.rs
+++ b/rs/src/utils/converters.rs
@@ -5,8 +5,8 @@ pub struct ConverterUtil;
 impl ConverterUtil {
     /// Return int Id of the column
     pub fn get_column_index(cell_ref: &str) -> AnyResult<u16, AnyError> {
-        let column_part: String = cell_ref.chars().take_while(|c| c.is_alphabetic()).collect();
-        if column_part.is_empty() {
+        let column_part: String = cell_ref.chars().take_while(|c| c.is_ascii_alphabetic()).collect();
+        if column_part.is_empty() || column_part.len() > 3 {
             return Err(anyhow!("Failed to Convert to Column Key Id"));
         }
         let mut index = 0;
-- 
2.43.0


From 177dadc145d602563ea7d25953db0e0011f7ad81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:41 +0000
Subject: [PATCH 11/58] fix: keep the type of cells that hold ISO 8601 dates

---
 rs/src/spreadsheet/spreadsheet_2007/models/worksheet.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rs/src/spreadsheet/spreadsheet_2007/models/worksheet.rs b/rs/src/spreadsheet/spreadsheet_2007/models/worksheet.rs
index 95bc93e..d963fb0 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/models/worksheet.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/models/worksheet.rs
@@ -11,6 +11,7 @@ pub enum CellDataType {
     ShareString,
     InlineString,
     Error,
+    Date,
 }
 
 impl Enum<CellDataType> for CellDataType {
@@ -22,6 +23,7 @@ impl Enum<CellDataType> for CellDataType {
             CellDataType::InlineString => "inlineStr".to_string(),
             CellDataType::Error => "e".to_string(),
             CellDataType::Number => "n".to_string(),
+            CellDataType::Date => "d".to_string(),
             _ => "a".to_string(),
         }
     }
@@ -33,6 +35,7 @@ impl Enum<CellDataType> for CellDataType {
             "s" => CellDataType::ShareString,
             "inlineStr" => CellDataType::InlineString,
             "e" => CellDataType::Error,
+            "d" => CellDataType::Date,
             _ => CellDataType::Number,
         }
     }
-- 
2.43.0


From ad54eccad063c871582c002e6c09a8691f8e1b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:49 +0000
Subject: [PATCH 12/58] fix: reject row and column settings outside the
 worksheet

---
 rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
index aa4fd5e..c3be39b 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
@@ -1159,6 +1159,9 @@ impl WorkSheet {
         col_index: &u16,
         column_properties: Option<ColumnProperties>,
     ) -> AnyResult<(), AnyError> {
+        if *col_index == 0 || *col_index > 16384 {
+            return Err(anyhow!("Column index is outside the worksheet"));
+        }
         if column_properties.is_some() || self.column_collection.is_some() {
             let column_collection = self.column_collection.get_or_insert_with(VecDeque::new);
             let mut new_ranges = VecDeque::new();
@@ -1212,6 +1215,9 @@ impl WorkSheet {
         row_index: &u32,
         row_properties: RowProperties,
     ) -> AnyResult<(), AnyError> {
+        if *row_index == 0 || *row_index > 1048576 {
+            return Err(anyhow!("Row index is outside the worksheet"));
+        }
         if let Some(sheet_data) = self.sheet_data.as_mut() {
             if let Some(row) = sheet_data.get_mut(row_index) {
                 row.row_record = row_properties;
-- 
2.43.0


From 0aa17fa8016c7de4874ad5506614a2cfdd12ca9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:20 +0000
Subject: [PATCH 13/58] fix: keep the existing file until the new package is
 completely written

---
 rs/src/files/office_document.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/rs/src/files/office_document.rs b/rs/src/files/office_document.rs
index 85c2dbb..ca4619c 100644
--- a/rs/src/files/office_document.rs
+++ b/rs/src/files/office_document.rs
@@ -7,7 +7,7 @@ use anyhow::{anyhow, Context, Error as AnyError, Result as AnyResult};
 use std::{
     cell::RefCell,
     collections::{HashMap, HashSet},
-    fs::{metadata, remove_file, File},
+    fs::{remove_file, rename, File},
     io::{Cursor, Read, Write},
     rc::{Rc, Weak},
 };
@@ -164,12 +164,17 @@ impl OfficeDocument {
         let file_content: Vec<u8> = self
             .save_database_into_archive()
             .context("Save Archive Data into Database")?;
-        if metadata(file_path).is_ok() {
-            remove_file(file_path).map_err(|e| anyhow!("Remove Save File Target Failed. {}", e))?;
+        // Write next to the target and move it in place once complete
+        let temp_path = format!("{}.{}.tmp", file_path, std::process::id());
+        let mut file = File::create_new(&temp_path).context("Create Save File Failed")?;
+        let result = file
+            .write_all(&file_content)
+            .and_then(|_| file.sync_all())
+            .and_then(|_| rename(&temp_path, file_path));
+        if result.is_err() {
+            let _ = remove_file(&temp_path);
         }
-        let mut file = File::create(file_path).context("Create Save File Failed")?;
-        file.write_all(&file_content)
-            .context("Save File Write Failed")
+        result.context("Save File Write Failed")
     }
 
     /// Save the database content into file archive
-- 
2.43.0


From cbcd1d8a6e0a3695de4713d2841dfb4cdeaf5ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:34 +0000
Subject: [PATCH 14/58] fix: report failures while stamping the core properties

---
 .../global_2007/parts/core_properties.rs      | 29 +++++++------------
 1 file changed, 10 insertions(+), 19 deletions(-)

diff --git a/rs/src/global/global_2007/parts/core_properties.rs b/rs/src/global/global_2007/parts/core_properties.rs
index 1c391e2..9e73b83 100644
--- a/rs/src/global/global_2007/parts/core_properties.rs
+++ b/rs/src/global/global_2007/parts/core_properties.rs
@@ -49,31 +49,22 @@ impl XmlDocumentPartCommon for CorePropertiesPart {
             let mut xml_document = xml_document_ref
                 .try_borrow_mut()
                 .context("Failed to Pull Office document")?;
-            match xml_document
+            if let Some(element) = xml_document
                 .get_first_element_mut(vec!["cp:coreProperties", "dcterms:modified"], None)
+                .context("Failed to find the last modified date")?
             {
-                Ok(result) => {
-                    if let Some(element) = result {
-                        element.set_value_mut(
-                            Utc::now().to_rfc3339_opts(chrono::SecondsFormat::Secs, true),
-                        );
-                    }
-                }
-                Err(_) => (),
+                element
+                    .set_value_mut(Utc::now().to_rfc3339_opts(chrono::SecondsFormat::Secs, true));
             }
-            match xml_document
+            if let Some(element) = xml_document
                 .get_first_element_mut(vec!["cp:coreProperties", "dcterms:created"], None)
+                .context("Failed to find the created date")?
             {
-                Ok(result) => {
-                    if let Some(element) = result {
-                        if !element.has_value() {
-                            element.set_value_mut(
-                                Utc::now().to_rfc3339_opts(chrono::SecondsFormat::Secs, true),
-                            );
-                        }
-                    }
+                if !element.has_value() {
+                    element.set_value_mut(
+                        Utc::now().to_rfc3339_opts(chrono::SecondsFormat::Secs, true),
+                    );
                 }
-                Err(_) => (),
             }
         }
         // Update the current state to DB before dropping the object
-- 
2.43.0


From c52f8e9963656814d70d1d0e05ef74e2bfd0ad67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:34 +0000
Subject: [PATCH 15/58] fix: deleting a part also removes its open document so
 it is not written back

---
 rs/src/files/office_document.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rs/src/files/office_document.rs b/rs/src/files/office_document.rs
index ca4619c..596b110 100644
--- a/rs/src/files/office_document.rs
+++ b/rs/src/files/office_document.rs
@@ -53,6 +53,7 @@ impl OfficeDocument {
     }
 
     pub(crate) fn delete_document_mut(&mut self, file_name: &str) {
+        self.xml_document_collection.remove(file_name);
         self.archive_collection.remove(file_name);
     }
 
-- 
2.43.0


From f16e5258e1337656b020c2bce88738237c421cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:34 +0000
Subject: [PATCH 16/58] fix: treat parts that are open as existing when
 choosing a new part name

---
 rs/src/files/office_document.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rs/src/files/office_document.rs b/rs/src/files/office_document.rs
index 596b110..fec217b 100644
--- a/rs/src/files/office_document.rs
+++ b/rs/src/files/office_document.rs
@@ -50,6 +50,7 @@ impl OfficeDocument {
 
     pub(crate) fn check_file_exist(&self, file_path: String) -> bool {
         self.archive_collection.contains_key(&file_path)
+            || self.xml_document_collection.contains_key(&file_path)
     }
 
     pub(crate) fn delete_document_mut(&mut self, file_name: &str) {
-- 
2.43.0


From 89a055097a39a795dd86af6b6ff5b7354b49d7d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:34 +0000
Subject: [PATCH 17/58] fix: deleting a sheet of a closed workbook is an error

---
 .../spreadsheet_2007/parts/worksheet.rs       | 36 +++++++++----------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
index c3be39b..979f636 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
@@ -1389,24 +1389,24 @@ impl WorkSheet {
 
     /// Delete Current sheet and all its components
     pub fn delete_sheet_mut(self) -> AnyResult<(), AnyError> {
-        if let Some(sheet_collection) = self.sheet_collection.upgrade() {
-            sheet_collection
-                .try_borrow_mut()
-                .context("Failed to pull Sheets Collection")?
-                .retain(|item| item.0 != self.sheet_name);
-        }
-        if let Some(workbook_relationship_part) = self.workbook_relationship_part.upgrade() {
-            workbook_relationship_part
-                .try_borrow_mut()
-                .context("Failed to pull workbook relationship handle")?
-                .delete_relationship_mut(&self.file_path);
-        }
-        if let Some(xml_tree) = self.office_document.upgrade() {
-            xml_tree
-                .try_borrow_mut()
-                .context("Failed to Pull XML Handle")?
-                .delete_document_mut(&self.file_path);
-        }
+        self.sheet_collection
+            .upgrade()
+            .ok_or(anyhow!("Failed to pull Sheets Collection"))?
+            .try_borrow_mut()
+            .context("Failed to pull Sheets Collection")?
+            .retain(|item| item.0 != self.sheet_name);
+        self.workbook_relationship_part
+            .upgrade()
+            .ok_or(anyhow!("Failed to pull workbook relationship handle"))?
+            .try_borrow_mut()
+            .context("Failed to pull workbook relationship handle")?
+            .delete_relationship_mut(&self.file_path);
+        self.office_document
+            .upgrade()
+            .ok_or(anyhow!("Failed to Pull XML Handle"))?
+            .try_borrow_mut()
+            .context("Failed to Pull XML Handle")?
+            .delete_document_mut(&self.file_path);
         self.flush().context("Failed to flush the worksheet")?;
         Ok(())
     }
-- 
2.43.0


From 0b97ca9cd6a9a416c02c762ecd7168832202f782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:18 +0000
Subject: [PATCH 18/58] fix: deleting a relationship also finds targets
 relative to the package part

---
 rs/src/global/global_2007/parts/relations.rs  | 20 +++++++++++--------
 .../spreadsheet_2007/parts/worksheet.rs       |  3 ++-
 .../services/calculation_chain.rs             |  3 ++-
 .../spreadsheet_2007/services/share_string.rs |  3 ++-
 4 files changed, 18 insertions(+), 11 deletions(-)

diff --git a/rs/src/global/global_2007/parts/relations.rs b/rs/src/global/global_2007/parts/relations.rs
index dfc4258..aba07d7 100644
--- a/rs/src/global/global_2007/parts/relations.rs
+++ b/rs/src/global/global_2007/parts/relations.rs
@@ -271,14 +271,18 @@ impl RelationsPart {
     }
 
     /// Delete the target file path
-    pub(crate) fn delete_relationship_mut(&mut self, file_path: &str) {
+    pub(crate) fn delete_relationship_mut(&mut self, file_path: &str) -> AnyResult<(), AnyError> {
+        let absolute_path = if file_path.starts_with("/") {
+            file_path.to_string()
+        } else {
+            format!("/{}", file_path)
+        };
+        let relative_path = self
+            .get_relative_path()
+            .context("Get Relative Path for Part File")?;
         self.relationships.retain(|item| {
-            item.1
-                != if file_path.starts_with("/") {
-                    file_path.to_string()
-                } else {
-                    format!("/{}", file_path)
-                }
-        })
+            item.1 != absolute_path && format!("/{}{}", relative_path, item.1) != absolute_path
+        });
+        Ok(())
     }
 }
diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
index 979f636..b8f0da8 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
@@ -1400,7 +1400,8 @@ impl WorkSheet {
             .ok_or(anyhow!("Failed to pull workbook relationship handle"))?
             .try_borrow_mut()
             .context("Failed to pull workbook relationship handle")?
-            .delete_relationship_mut(&self.file_path);
+            .delete_relationship_mut(&self.file_path)
+            .context("Failed to delete the relationship")?;
         self.office_document
             .upgrade()
             .ok_or(anyhow!("Failed to Pull XML Handle"))?
diff --git a/rs/src/spreadsheet/spreadsheet_2007/services/calculation_chain.rs b/rs/src/spreadsheet/spreadsheet_2007/services/calculation_chain.rs
index c8aeb8f..498e679 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/services/calculation_chain.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/services/calculation_chain.rs
@@ -56,7 +56,8 @@ impl XmlDocumentPartCommon for CalculationChainPart {
                             relationship_part
                                 .try_borrow_mut()
                                 .context("Failed To pull parent relation ship part of Calc Chain")?
-                                .delete_relationship_mut(&self.file_path);
+                                .delete_relationship_mut(&self.file_path)
+                                .context("Failed to delete the relationship")?;
                             office_doc_ref
                                 .try_borrow_mut()
                                 .context("Failed to Borrow Share Tree")?
diff --git a/rs/src/spreadsheet/spreadsheet_2007/services/share_string.rs b/rs/src/spreadsheet/spreadsheet_2007/services/share_string.rs
index 2438b36..e5a0258 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/services/share_string.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/services/share_string.rs
@@ -82,7 +82,8 @@ impl XmlDocumentPartCommon for ShareStringPart {
                                 .context(
                                     "Failed To pull parent relation ship part of Share String",
                                 )?
-                                .delete_relationship_mut(&self.file_path);
+                                .delete_relationship_mut(&self.file_path)
+                                .context("Failed to delete the relationship")?;
                             office_doc_ref
                                 .try_borrow_mut()
                                 .context("Failed To pull XML Handle")?
-- 
2.43.0


From f8c0721c9b52565de70b79fd326baee598a29001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:08 +0000
Subject: [PATCH 19/58] fix: list each default content type once and no empty
 one

---
 rs/src/files/office_document.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/rs/src/files/office_document.rs b/rs/src/files/office_document.rs
index fec217b..8d3bad5 100644
--- a/rs/src/files/office_document.rs
+++ b/rs/src/files/office_document.rs
@@ -6,7 +6,7 @@ use crate::{
 use anyhow::{anyhow, Context, Error as AnyError, Result as AnyResult};
 use std::{
     cell::RefCell,
-    collections::{HashMap, HashSet},
+    collections::HashMap,
     fs::{remove_file, rename, File},
     io::{Cursor, Read, Write},
     rc::{Rc, Weak},
@@ -181,7 +181,7 @@ impl OfficeDocument {
 
     /// Save the database content into file archive
     fn save_database_into_archive(&self) -> AnyResult<Vec<u8>, AnyError> {
-        let mut extensions: Vec<(String, String)> = Vec::new();
+        let mut extensions: HashMap<String, String> = HashMap::new();
         let mut overrides: Vec<(String, String)> = Vec::new();
         let mut buffer = Cursor::new(Vec::new());
         let mut zip_writer: ZipWriter<&mut Cursor<Vec<u8>>> = ZipWriter::new(&mut buffer);
@@ -201,9 +201,14 @@ impl OfficeDocument {
                 ),
             ) in self.archive_collection.to_owned()
             {
-                extensions.push((file_extension, extension_type));
                 if let Some(content_type) = content_type {
+                    if !file_extension.is_empty() {
+                        extensions.entry(file_extension).or_insert(extension_type);
+                    }
                     overrides.push((format!("/{}", file_name), content_type));
+                } else if !file_extension.is_empty() {
+                    // Only the default gives this part its type
+                    extensions.insert(file_extension, extension_type);
                 }
                 zip_writer
                     .start_file(file_name, zip_option)
@@ -222,11 +227,7 @@ impl OfficeDocument {
             .start_file("[Content_Types].xml", zip_option)
             .context("Zip File Write Start Fail")?;
         let content_type_file = ContentTypesPart::create_xml_file(
-            extensions
-                .into_iter()
-                .collect::<HashSet<_>>()
-                .into_iter()
-                .collect::<Vec<_>>(),
+            extensions.into_iter().collect::<Vec<_>>(),
             overrides,
         )
         .context("Creating Content Type XML Failed")?;
-- 
2.43.0


From 9cd1aba79df6ad9546b4a0ebd090bce6e0e51e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:08 +0000
Subject: [PATCH 20/58] fix: match default content types without regard to
 letter case

---
 rs/src/files/office_document.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rs/src/files/office_document.rs b/rs/src/files/office_document.rs
index 8d3bad5..4442457 100644
--- a/rs/src/files/office_document.rs
+++ b/rs/src/files/office_document.rs
@@ -284,7 +284,9 @@ impl OfficeDocument {
             let f_extension = file_name.rsplit(".").next();
             if let Some(f_extension) = f_extension {
                 if let Some(extensions) = extension_collection.clone() {
-                    let item = extensions.iter().find(|item| item.0 == f_extension);
+                    let item = extensions
+                        .iter()
+                        .find(|item| item.0.eq_ignore_ascii_case(f_extension));
                     if let Some(extension) = item {
                         file_extension = extension.0.to_string();
                         extension_type = extension.1.to_string();
-- 
2.43.0


From 354b22dbae88e4989a55943fcd2bc207c1c9ff63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:08 +0000
Subject: [PATCH 21/58] fix: report a content type override without type
 instead of panicking

---
 rs/src/global/global_2007/parts/content_types.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rs/src/global/global_2007/parts/content_types.rs b/rs/src/global/global_2007/parts/content_types.rs
index 707cb4a..3d4af61 100644
--- a/rs/src/global/global_2007/parts/content_types.rs
+++ b/rs/src/global/global_2007/parts/content_types.rs
@@ -55,7 +55,10 @@ impl ContentTypesPart {
             if let Some(id) = find_ids.pop() {
                 if let Some(element) = self.xml_document.pop_element_mut(&id) {
                     if let Some(attributes) = element.get_attribute() {
-                        let res = attributes.get("ContentType").unwrap().to_string();
+                        let res = attributes
+                            .get("ContentType")
+                            .ok_or(anyhow!("content type override attribute missing"))?
+                            .to_string();
                         return Ok(Some(res));
                     }
                 }
-- 
2.43.0


From dcf6b4a4a86f57e282c58aeb08b84f71643f363e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:38 +0000
Subject: [PATCH 22/58] fix: find the owning folder of a relationship part also
 below folders named like _rels

---
 rs/src/global/global_2007/parts/relations.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rs/src/global/global_2007/parts/relations.rs b/rs/src/global/global_2007/parts/relations.rs
index aba07d7..aa621f4 100644
--- a/rs/src/global/global_2007/parts/relations.rs
+++ b/rs/src/global/global_2007/parts/relations.rs
@@ -129,7 +129,7 @@ impl RelationsPart {
     pub(crate) fn get_relative_path(&self) -> AnyResult<String, AnyError> {
         let rels_position = self
             .file_path
-            .find("_rels")
+            .rfind("_rels/")
             .ok_or(anyhow!("Failed to string Prefix path from relation"))?;
         if rels_position > 0 {
             Ok(format!("{}/", &self.file_path[..rels_position - 1]))
-- 
2.43.0


From 66bd8c3e6c8e6353c7caa7a963aee2b30ca17c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:22 +0000
Subject: [PATCH 23/58] fix: load every shared string item at its own position,
 with the text of rich text runs

---
 .../spreadsheet_2007/services/share_string.rs | 24 +++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/rs/src/spreadsheet/spreadsheet_2007/services/share_string.rs b/rs/src/spreadsheet/spreadsheet_2007/services/share_string.rs
index e5a0258..3b594f7 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/services/share_string.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/services/share_string.rs
@@ -176,12 +176,28 @@ impl ShareStringPart {
                 .context("xml doc borrow failed")?;
             if let Some(elements) = xml_doc_mut.pop_elements_by_tag_mut("si", None) {
                 for element in elements {
-                    if let Some((child_id, _)) = element.pop_child_mut() {
-                        if let Some(text_element) = xml_doc_mut.pop_element_mut(&child_id) {
-                            let value = text_element.get_value().clone().unwrap_or("".to_string());
-                            share_string_collection.push(value);
+                    // Every item owns its position, the text of rich text items is split over runs
+                    let mut value = String::new();
+                    while let Some((child_id, _)) = element.pop_child_mut() {
+                        if let Some(child) = xml_doc_mut.pop_element_mut(&child_id) {
+                            if child.get_tag() == "t" {
+                                value.push_str(child.get_value().as_deref().unwrap_or(""));
+                            } else if child.get_tag() == "r" {
+                                while let Some((run_child_id, _)) = child.pop_child_mut() {
+                                    if let Some(run_child) =
+                                        xml_doc_mut.pop_element_mut(&run_child_id)
+                                    {
+                                        if run_child.get_tag() == "t" {
+                                            value.push_str(
+                                                run_child.get_value().as_deref().unwrap_or(""),
+                                            );
+                                        }
+                                    }
+                                }
+                            }
                         }
                     }
+                    share_string_collection.push(value);
                 }
             }
         }
-- 
2.43.0


From e738a15ee310563e5617380b5370a1792eb46082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:23 +0000
Subject: [PATCH 24/58] fix: mark white space of shared strings as significant
 when saving

---
 .../spreadsheet_2007/services/share_string.rs     | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/rs/src/spreadsheet/spreadsheet_2007/services/share_string.rs b/rs/src/spreadsheet/spreadsheet_2007/services/share_string.rs
index 3b594f7..feaa3e9 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/services/share_string.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/services/share_string.rs
@@ -64,10 +64,19 @@ impl XmlDocumentPartCommon for ShareStringPart {
                                     .append_child_mut("si", None)
                                     .context("Failed to Add Child")?
                                     .get_id();
-                                xml_doc_mut
+                                let text_element = xml_doc_mut
                                     .append_child_mut("t", Some(&parent_id))
-                                    .context("Creating Share String Child Failed")?
-                                    .set_value_mut(string);
+                                    .context("Creating Share String Child Failed")?;
+                                // Readers drop white space at the ends of the text unless told otherwise
+                                if string.trim() != string {
+                                    text_element
+                                        .set_attribute_mut(HashMap::from([(
+                                            "xml:space".to_string(),
+                                            "preserve".to_string(),
+                                        )]))
+                                        .context("Failed to set Share String attribute")?;
+                                }
+                                text_element.set_value_mut(string);
                             }
                         }
                         office_doc_ref
-- 
2.43.0


From ec98ffb9d62020d6656fdbd03472917d5120e035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:23 +0000
Subject: [PATCH 25/58] fix: keep calculation chain entries as they were read
 instead of panicking on entries without sheet id

---
 .../services/calculation_chain.rs                 | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/rs/src/spreadsheet/spreadsheet_2007/services/calculation_chain.rs b/rs/src/spreadsheet/spreadsheet_2007/services/calculation_chain.rs
index 498e679..2c141f6 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/services/calculation_chain.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/services/calculation_chain.rs
@@ -13,7 +13,7 @@ use std::{cell::RefCell, collections::HashMap, rc::Weak};
 pub struct CalculationChainPart {
     office_document: Weak<RefCell<OfficeDocument>>,
     parent_relationship_part: Weak<RefCell<RelationsPart>>,
-    calculation_collection: Vec<(String, String, Option<String>)>,
+    calculation_collection: Vec<HashMap<String, String>>,
     xml_document: Weak<RefCell<XmlDocument>>,
     file_path: String,
 }
@@ -37,10 +37,7 @@ impl XmlDocumentPartCommon for CalculationChainPart {
                             let mut xml_doc_mut = xml_document
                                 .try_borrow_mut()
                                 .context("Failed to pull document handle")?;
-                            for (cell_key, sheet_id, _l) in self.calculation_collection.to_owned() {
-                                let mut attributes = HashMap::new();
-                                attributes.insert("r".to_string(), cell_key);
-                                attributes.insert("i".to_string(), sheet_id);
+                            for attributes in self.calculation_collection.to_owned() {
                                 xml_doc_mut
                                     .append_child_mut("c", None)
                                     .context("Failed To Add Child Item")?
@@ -141,7 +138,7 @@ impl CalculationChainPart {
     }
     fn load_content_to_database(
         xml_document: &mut Weak<RefCell<XmlDocument>>,
-    ) -> AnyResult<Vec<(String, String, Option<String>)>, AnyError> {
+    ) -> AnyResult<Vec<HashMap<String, String>>, AnyError> {
         let mut calculation_collection = Vec::new();
         if let Some(xml_document) = xml_document.upgrade() {
             let mut xml_doc_mut = xml_document
@@ -150,11 +147,7 @@ impl CalculationChainPart {
             if let Some(elements) = xml_doc_mut.pop_elements_by_tag_mut("c", None) {
                 for element in elements {
                     if let Some(attributes) = element.get_attribute() {
-                        calculation_collection.push((
-                            attributes["r"].clone(),
-                            attributes["i"].clone(),
-                            attributes.get("l").cloned(),
-                        ));
+                        calculation_collection.push(attributes.clone());
                     }
                 }
             }
-- 
2.43.0


From 768fc517901868dcaefdec2a1222ba2ef6375e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:13 +0000
Subject: [PATCH 26/58] fix: read hidden sheet tabs of a workbook view with the
 right polarity

---
 rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
index 186df49..5901a09 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
@@ -372,7 +372,7 @@ impl WorkbookPart {
                                                 {
                                                     ConverterUtil::normalize_bool_property_u8(
                                                         hide_sheet_tab,
-                                                    ) == 1
+                                                    ) == 0
                                                 } else {
                                                     false
                                                 },
-- 
2.43.0


From caa69e75c42d6f9383f7a73b1f37aa314bff460f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:13 +0000
Subject: [PATCH 27/58] fix: save the date grouping of a workbook view under
 its own attribute

---
 rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
index 5901a09..b80ec5c 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
@@ -137,7 +137,7 @@ impl XmlDocumentPartCommon for WorkbookPart {
                             &workbook_view.auto_filter_date_grouping
                         {
                             attributes.insert(
-                                "tabRatio".to_string(),
+                                "autoFilterDateGrouping".to_string(),
                                 if auto_filter_date_grouping.to_owned() {
                                     "1".to_string()
                                 } else {
-- 
2.43.0


From 7f50478c7a1f90404d5d1801ea5e625f16f58902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:13 +0000
Subject: [PATCH 28/58] fix: save the activated sheet as the active tab

---
 .../spreadsheet/spreadsheet_2007/parts/workbook.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
index b80ec5c..1c686b4 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
@@ -124,7 +124,16 @@ impl XmlDocumentPartCommon for WorkbookPart {
                             .append_child_mut("workbookView", Some(&book_views_id))
                             .context("Failed to create workbook view")?;
                         let mut attributes: HashMap<String, String> = HashMap::new();
-                        if let Some(active_tab) = &workbook_view.active_tab {
+                        // The sheet activated by the user takes precedence over the one of the file
+                        let active_sheet = self
+                            .sheet_collection
+                            .try_borrow()
+                            .context("Failed to pull Sheet Name Collection")?
+                            .iter()
+                            .position(|item| item.2);
+                        if let Some(active_sheet) = active_sheet {
+                            attributes.insert("activeTab".to_string(), active_sheet.to_string());
+                        } else if let Some(active_tab) = &workbook_view.active_tab {
                             attributes.insert("activeTab".to_string(), active_tab.clone());
                         }
                         if let Some(first_sheet) = &workbook_view.first_sheet {
@@ -546,6 +555,9 @@ impl WorkbookPart {
                 *active_sheet = false
             }
         }
+        // The active sheet is recorded in the workbook view
+        self.workbook_view
+            .get_or_insert_with(WorkbookView::default);
         Ok(())
     }
 
-- 
2.43.0


From fe8b113b69f4f74f07ad6841cb6a1c3ff2af995f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:13 +0000
Subject: [PATCH 29/58] fix: keep the window position and size of a workbook
 view

---
 .../spreadsheet_2007/parts/workbook.rs        | 29 +++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
index 1c686b4..b327ede 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
@@ -45,6 +45,11 @@ pub(crate) struct WorkbookView {
     hide_sheet_tab: bool,
     sheet_tab_ratio: Option<i16>,
     auto_filter_date_grouping: Option<bool>,
+    /// Window position and size
+    x_window: Option<String>,
+    y_window: Option<String>,
+    window_width: Option<String>,
+    window_height: Option<String>,
 }
 
 impl Default for WorkbookView {
@@ -59,6 +64,10 @@ impl Default for WorkbookView {
             hide_horizontal_scroll: false,
             sheet_tab_ratio: None,
             visibility: None,
+            x_window: None,
+            y_window: None,
+            window_width: None,
+            window_height: None,
         }
     }
 }
@@ -162,6 +171,18 @@ impl XmlDocumentPartCommon for WorkbookPart {
                                 "0".to_string()
                             },
                         );
+                        if let Some(x_window) = &workbook_view.x_window {
+                            attributes.insert("xWindow".to_string(), x_window.clone());
+                        }
+                        if let Some(y_window) = &workbook_view.y_window {
+                            attributes.insert("yWindow".to_string(), y_window.clone());
+                        }
+                        if let Some(window_width) = &workbook_view.window_width {
+                            attributes.insert("windowWidth".to_string(), window_width.clone());
+                        }
+                        if let Some(window_height) = &workbook_view.window_height {
+                            attributes.insert("windowHeight".to_string(), window_height.clone());
+                        }
                         if let Some(visibility) = &workbook_view.visibility {
                             attributes.insert("visibility".to_string(), visibility.clone());
                         }
@@ -385,6 +406,14 @@ impl WorkbookPart {
                                                 } else {
                                                     false
                                                 },
+                                                x_window: attributes.get("xWindow").cloned(),
+                                                y_window: attributes.get("yWindow").cloned(),
+                                                window_width: attributes
+                                                    .get("windowWidth")
+                                                    .cloned(),
+                                                window_height: attributes
+                                                    .get("windowHeight")
+                                                    .cloned(),
                                                 visibility: if let Some(visibility) =
                                                     attributes.get("visibility")
                                                 {
-- 
2.43.0


From d49e4bfa58d08adec008a75a847274a7e04c775a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:13 +0000
Subject: [PATCH 30/58] fix: hiding a sheet no longer shows the other hidden
 sheets

---
 rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
index b327ede..8f8b1d4 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
@@ -679,8 +679,6 @@ impl WorkbookPart {
         {
             if current_sheet_name == sheet_name {
                 *hide_sheet = true
-            } else {
-                *hide_sheet = false
             }
         }
         Ok(())
-- 
2.43.0


From 7912a5491d3591882cbf36e6576ce37dab5bddaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:13 +0000
Subject: [PATCH 31/58] fix: keep the state of very hidden sheets

---
 .../spreadsheet_2007/parts/workbook.rs        | 23 ++++++++-----------
 .../spreadsheet_2007/parts/worksheet.rs       |  8 +++----
 2 files changed, 13 insertions(+), 18 deletions(-)

diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
index 8f8b1d4..0fd2ac4 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
@@ -29,8 +29,8 @@ pub struct WorkbookPart {
     common_service: Rc<RefCell<CommonServices>>,
     workbook_relationship_part: Rc<RefCell<RelationsPart>>,
     theme_part: ThemePart,
-    /// This contain the sheet name, relationId, active sheet, hide sheet
-    sheet_collection: Rc<RefCell<Vec<(String, String, bool, bool)>>>,
+    /// This contain the sheet name, relationId, active sheet, sheet state
+    sheet_collection: Rc<RefCell<Vec<(String, String, bool, Option<String>)>>>,
     workbook_view: Option<WorkbookView>,
 }
 
@@ -219,7 +219,7 @@ impl XmlDocumentPartCommon for WorkbookPart {
                         .insert_children_after_tag_mut("sheets", "bookViews", None)
                         .context("Create Sheets Node Failed")?
                         .get_id();
-                    for (sheet_display_name, relationship_id, _, hide) in &self
+                    for (sheet_display_name, relationship_id, _, state) in &self
                         .sheet_collection
                         .try_borrow_mut()
                         .context("Failed to pull Sheet Name Collection")?
@@ -232,8 +232,8 @@ impl XmlDocumentPartCommon for WorkbookPart {
                         attributes.insert("name".to_string(), sheet_display_name.to_string());
                         attributes.insert("sheetId".to_string(), sheet_count.to_string());
                         attributes.insert("r:id".to_string(), relationship_id.to_string());
-                        if *hide {
-                            attributes.insert("state".to_string(), "hidden".to_string());
+                        if let Some(state) = state {
+                            attributes.insert("state".to_string(), state.to_string());
                         }
                         sheet
                             .set_attribute_mut(attributes)
@@ -338,7 +338,7 @@ impl XmlDocumentPart for WorkbookPart {
 impl WorkbookPart {
     fn load_sheet_names(
         xml_document: &mut Weak<RefCell<XmlDocument>>,
-    ) -> AnyResult<(Vec<(String, String, bool, bool)>, Option<WorkbookView>), AnyError> {
+    ) -> AnyResult<(Vec<(String, String, bool, Option<String>)>, Option<WorkbookView>), AnyError> {
         log_elapsed!(
             || {
                 let mut sheet_collection = Vec::new();
@@ -476,16 +476,11 @@ impl WorkbookPart {
                                             let r_id = attributes.get("r:id").ok_or(anyhow!(
                                                 "Error When Trying to read Sheet Details."
                                             ))?;
-                                            let state = attributes.get("state");
                                             sheet_collection.push((
                                                 name.to_string(),
                                                 r_id.to_string(),
                                                 false,
-                                                if let Some(state) = state {
-                                                    state == "hidden"
-                                                } else {
-                                                    false
-                                                },
+                                                attributes.get("state").cloned(),
                                             ));
                                         }
                                     }
@@ -671,14 +666,14 @@ impl WorkbookPart {
 
     /// Hide sheet on opening the excel
     pub(crate) fn hide_sheet_mut(&mut self, sheet_name: &str) -> AnyResult<(), AnyError> {
-        for (current_sheet_name, _, _, hide_sheet) in self
+        for (current_sheet_name, _, _, sheet_state) in self
             .sheet_collection
             .try_borrow_mut()
             .context("Failed to pull Sheet Collection Handle")?
             .iter_mut()
         {
             if current_sheet_name == sheet_name {
-                *hide_sheet = true
+                *sheet_state = Some("hidden".to_string())
             }
         }
         Ok(())
diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
index b8f0da8..b1d8de8 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
@@ -118,7 +118,7 @@ pub struct WorkSheet {
     xml_document: Weak<RefCell<XmlDocument>>,
     common_service: Weak<RefCell<CommonServices>>,
     workbook_relationship_part: Weak<RefCell<RelationsPart>>,
-    sheet_collection: Weak<RefCell<Vec<(String, String, bool, bool)>>>,
+    sheet_collection: Weak<RefCell<Vec<(String, String, bool, Option<String>)>>>,
     sheet_relationship_part: Rc<RefCell<RelationsPart>>,
     dimension: Dimension,
     // sheet_property: Option<_>,
@@ -214,7 +214,7 @@ impl WorkSheet {
     /// Create New object for the group
     pub(crate) fn new(
         office_document: Weak<RefCell<OfficeDocument>>,
-        sheet_collection: Weak<RefCell<Vec<(String, String, bool, bool)>>>,
+        sheet_collection: Weak<RefCell<Vec<(String, String, bool, Option<String>)>>>,
         workbook_relationship_part: Weak<RefCell<RelationsPart>>,
         common_service: Weak<RefCell<CommonServices>>,
         sheet_name: Option<String>,
@@ -1043,7 +1043,7 @@ impl WorkSheet {
     fn get_sheet_file_name(
         sheet_name: Option<String>,
         office_document: &Weak<RefCell<OfficeDocument>>,
-        sheet_collection: &Weak<RefCell<Vec<(String, String, bool, bool)>>>,
+        sheet_collection: &Weak<RefCell<Vec<(String, String, bool, Option<String>)>>>,
         workbook_relationship_part: &Weak<RefCell<RelationsPart>>,
     ) -> AnyResult<(String, String), AnyError> {
         let worksheet_content = EXCEL_TYPE_COLLECTION.get("worksheet").unwrap();
@@ -1120,7 +1120,7 @@ impl WorkSheet {
                 sheet_collection
                     .try_borrow_mut()
                     .context("Failed To pull Sheet Collection Handle")?
-                    .push((sheet_name.clone(), relationship_id, false, false));
+                    .push((sheet_name.clone(), relationship_id, false, None));
                 return Ok((
                     format!(
                         "{}/{}{}.{}",
-- 
2.43.0


From 5f9a9cd710bc026fee9f5fb92f0d177efa8c0def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:13 +0000
Subject: [PATCH 32/58] fix: keep sheet ids of existing sheets

---
 .../spreadsheet_2007/parts/workbook.rs        | 25 ++++++++++-------
 .../spreadsheet_2007/parts/worksheet.rs       | 28 ++++++++++++++-----
 2 files changed, 36 insertions(+), 17 deletions(-)

diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
index 0fd2ac4..54b79ea 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
@@ -29,8 +29,8 @@ pub struct WorkbookPart {
     common_service: Rc<RefCell<CommonServices>>,
     workbook_relationship_part: Rc<RefCell<RelationsPart>>,
     theme_part: ThemePart,
-    /// This contain the sheet name, relationId, active sheet, sheet state
-    sheet_collection: Rc<RefCell<Vec<(String, String, bool, Option<String>)>>>,
+    /// This contain the sheet name, relationId, active sheet, sheet state, sheet id
+    sheet_collection: Rc<RefCell<Vec<(String, String, bool, Option<String>, u32)>>>,
     workbook_view: Option<WorkbookView>,
 }
 
@@ -122,7 +122,6 @@ impl XmlDocumentPartCommon for WorkbookPart {
                     let mut xml_doc_mut = xml_document_mut
                         .try_borrow_mut()
                         .context("Borrow XML Document Failed")?;
-                    let mut sheet_count = 1;
                     if let Some(workbook_view) = &self.workbook_view {
                         // Create and Set BookViews
                         let book_views_id = xml_doc_mut
@@ -219,7 +218,7 @@ impl XmlDocumentPartCommon for WorkbookPart {
                         .insert_children_after_tag_mut("sheets", "bookViews", None)
                         .context("Create Sheets Node Failed")?
                         .get_id();
-                    for (sheet_display_name, relationship_id, _, state) in &self
+                    for (sheet_display_name, relationship_id, _, state, sheet_id) in &self
                         .sheet_collection
                         .try_borrow_mut()
                         .context("Failed to pull Sheet Name Collection")?
@@ -230,7 +229,7 @@ impl XmlDocumentPartCommon for WorkbookPart {
                             .context("Create Sheet Node Failed")?;
                         let mut attributes = HashMap::new();
                         attributes.insert("name".to_string(), sheet_display_name.to_string());
-                        attributes.insert("sheetId".to_string(), sheet_count.to_string());
+                        attributes.insert("sheetId".to_string(), sheet_id.to_string());
                         attributes.insert("r:id".to_string(), relationship_id.to_string());
                         if let Some(state) = state {
                             attributes.insert("state".to_string(), state.to_string());
@@ -238,7 +237,6 @@ impl XmlDocumentPartCommon for WorkbookPart {
                         sheet
                             .set_attribute_mut(attributes)
                             .context("Sheet Attributes Failed")?;
-                        sheet_count += 1;
                     }
                     if let Some(root_element) = xml_doc_mut.get_root_mut() {
                         root_element
@@ -338,7 +336,7 @@ impl XmlDocumentPart for WorkbookPart {
 impl WorkbookPart {
     fn load_sheet_names(
         xml_document: &mut Weak<RefCell<XmlDocument>>,
-    ) -> AnyResult<(Vec<(String, String, bool, Option<String>)>, Option<WorkbookView>), AnyError> {
+    ) -> AnyResult<(Vec<(String, String, bool, Option<String>, u32)>, Option<WorkbookView>), AnyError> {
         log_elapsed!(
             || {
                 let mut sheet_collection = Vec::new();
@@ -481,6 +479,13 @@ impl WorkbookPart {
                                                 r_id.to_string(),
                                                 false,
                                                 attributes.get("state").cloned(),
+                                                attributes
+                                                    .get("sheetId")
+                                                    .ok_or(anyhow!(
+                                                        "Error When Trying to read Sheet Details."
+                                                    ))?
+                                                    .parse()
+                                                    .context("Failed to parse the sheet id")?,
                                             ));
                                         }
                                     }
@@ -528,7 +533,7 @@ impl WorkbookPart {
             .try_borrow()
             .context("Failed to pull Sheet Name Collection")?
             .iter()
-            .map(|(sheet_name, _, _, _)| sheet_name.to_string())
+            .map(|(sheet_name, _, _, _, _)| sheet_name.to_string())
             .collect::<Vec<String>>())
     }
 }
@@ -567,7 +572,7 @@ impl WorkbookPart {
 
     /// Set Active sheet on opening the excel
     pub(crate) fn set_active_sheet_mut(&mut self, sheet_name: &str) -> AnyResult<(), AnyError> {
-        for (current_sheet_name, _, active_sheet, _) in self
+        for (current_sheet_name, _, active_sheet, _, _) in self
             .sheet_collection
             .try_borrow_mut()
             .context("Failed to pull Sheet Collection Handle")?
@@ -666,7 +671,7 @@ impl WorkbookPart {
 
     /// Hide sheet on opening the excel
     pub(crate) fn hide_sheet_mut(&mut self, sheet_name: &str) -> AnyResult<(), AnyError> {
-        for (current_sheet_name, _, _, sheet_state) in self
+        for (current_sheet_name, _, _, sheet_state, _) in self
             .sheet_collection
             .try_borrow_mut()
             .context("Failed to pull Sheet Collection Handle")?
diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
index b1d8de8..ca765bb 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
@@ -118,7 +118,7 @@ pub struct WorkSheet {
     xml_document: Weak<RefCell<XmlDocument>>,
     common_service: Weak<RefCell<CommonServices>>,
     workbook_relationship_part: Weak<RefCell<RelationsPart>>,
-    sheet_collection: Weak<RefCell<Vec<(String, String, bool, Option<String>)>>>,
+    sheet_collection: Weak<RefCell<Vec<(String, String, bool, Option<String>, u32)>>>,
     sheet_relationship_part: Rc<RefCell<RelationsPart>>,
     dimension: Dimension,
     // sheet_property: Option<_>,
@@ -214,7 +214,7 @@ impl WorkSheet {
     /// Create New object for the group
     pub(crate) fn new(
         office_document: Weak<RefCell<OfficeDocument>>,
-        sheet_collection: Weak<RefCell<Vec<(String, String, bool, Option<String>)>>>,
+        sheet_collection: Weak<RefCell<Vec<(String, String, bool, Option<String>, u32)>>>,
         workbook_relationship_part: Weak<RefCell<RelationsPart>>,
         common_service: Weak<RefCell<CommonServices>>,
         sheet_name: Option<String>,
@@ -1043,7 +1043,7 @@ impl WorkSheet {
     fn get_sheet_file_name(
         sheet_name: Option<String>,
         office_document: &Weak<RefCell<OfficeDocument>>,
-        sheet_collection: &Weak<RefCell<Vec<(String, String, bool, Option<String>)>>>,
+        sheet_collection: &Weak<RefCell<Vec<(String, String, bool, Option<String>, u32)>>>,
         workbook_relationship_part: &Weak<RefCell<RelationsPart>>,
     ) -> AnyResult<(String, String), AnyError> {
         let worksheet_content = EXCEL_TYPE_COLLECTION.get("worksheet").unwrap();
@@ -1051,7 +1051,7 @@ impl WorkSheet {
             if let Some(workbook_relationship_part) = workbook_relationship_part.upgrade() {
                 if let Some(sheet_name) = sheet_name.clone() {
                     // If the Sheet name already exist get the path of sheet name
-                    if let Some((_, rel_id, _, _)) = sheet_collection
+                    if let Some((_, rel_id, _, _, _)) = sheet_collection
                         .try_borrow()
                         .context("Failed to Get Sheet Collection")?
                         .iter()
@@ -1117,10 +1117,24 @@ impl WorkSheet {
                         )),
                     )
                     .context("Setting New Calculation Chain Relationship Failed.")?;
-                sheet_collection
+                let mut sheet_collection = sheet_collection
                     .try_borrow_mut()
-                    .context("Failed To pull Sheet Collection Handle")?
-                    .push((sheet_name.clone(), relationship_id, false, None));
+                    .context("Failed To pull Sheet Collection Handle")?;
+                // Sheet id is unique and never changes as other parts refer to it
+                let sheet_id = sheet_collection
+                    .iter()
+                    .map(|item| item.4)
+                    .max()
+                    .unwrap_or(0)
+                    .checked_add(1)
+                    .ok_or(anyhow!("No more sheet id available"))?;
+                sheet_collection.push((
+                    sheet_name.clone(),
+                    relationship_id,
+                    false,
+                    None,
+                    sheet_id,
+                ));
                 return Ok((
                     format!(
                         "{}/{}{}.{}",
-- 
2.43.0


From cfb0b6ed9d1968ca6a103ee4b5b5f84ef9d11e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:13 +0000
Subject: [PATCH 33/58] fix: generated sheet name is never one already taken

---
 .../spreadsheet/spreadsheet_2007/parts/worksheet.rs   | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
index ca765bb..8c23860 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
@@ -1082,7 +1082,12 @@ impl WorkSheet {
                     let document = office_doc
                         .try_borrow()
                         .context("Failed to Borrow Document")?;
+                    let collection = sheet_collection
+                        .try_borrow()
+                        .context("Failed to pull Sheet Name Collection")?;
                     loop {
+                        let default_sheet_name =
+                            format!("{}{}", worksheet_content.default_name, sheet_count);
                         if document.check_file_exist(format!(
                             "{}{}/{}{}.{}",
                             relative_path,
@@ -1090,7 +1095,11 @@ impl WorkSheet {
                             worksheet_content.default_name,
                             sheet_count,
                             worksheet_content.extension
-                        )) {
+                        )) || (sheet_name.is_none()
+                            && collection
+                                .iter()
+                                .any(|item| item.0.eq_ignore_ascii_case(&default_sheet_name)))
+                        {
                             sheet_count += 1;
                         } else {
                             break;
-- 
2.43.0


From 0f5cf7967558552f57f6401d3bab2299d89175a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:13 +0000
Subject: [PATCH 34/58] fix: delete the list entry of a sheet renamed after its
 handle was created

---
 rs/src/global/global_2007/parts/relations.rs  | 19 +++++++++++++++++++
 .../spreadsheet_2007/parts/worksheet.rs       | 19 +++++++++++++------
 2 files changed, 32 insertions(+), 6 deletions(-)

diff --git a/rs/src/global/global_2007/parts/relations.rs b/rs/src/global/global_2007/parts/relations.rs
index aa621f4..1437d45 100644
--- a/rs/src/global/global_2007/parts/relations.rs
+++ b/rs/src/global/global_2007/parts/relations.rs
@@ -161,6 +161,25 @@ impl RelationsPart {
         }
     }
 
+    /// Get the relationship id of the part
+    pub(crate) fn get_id_by_target(&self, file_path: &str) -> AnyResult<Option<String>, AnyError> {
+        let absolute_path = if file_path.starts_with("/") {
+            file_path.to_string()
+        } else {
+            format!("/{}", file_path)
+        };
+        let relative_path = self
+            .get_relative_path()
+            .context("Get Relative Path for Part File")?;
+        Ok(self
+            .relationships
+            .iter()
+            .find(|item| {
+                item.1 == absolute_path || format!("/{}{}", relative_path, item.1) == absolute_path
+            })
+            .map(|item| item.0.clone()))
+    }
+
     /// Get Relation Target based on Type
     /// Note: This will get the first element match the criteria
     pub(crate) fn get_relationship_target_by_type_mut(
diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
index 8c23860..a83ae2c 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
@@ -1412,17 +1412,24 @@ impl WorkSheet {
 
     /// Delete Current sheet and all its components
     pub fn delete_sheet_mut(self) -> AnyResult<(), AnyError> {
+        let workbook_relationship_part = self
+            .workbook_relationship_part
+            .upgrade()
+            .ok_or(anyhow!("Failed to pull workbook relationship handle"))?;
+        let mut workbook_relationship_part = workbook_relationship_part
+            .try_borrow_mut()
+            .context("Failed to pull workbook relationship handle")?;
+        // The sheet may have been renamed after this handle was created, its part stays the same
+        let relationship_id = workbook_relationship_part
+            .get_id_by_target(&self.file_path)
+            .context("Failed to get the relationship of the sheet")?;
         self.sheet_collection
             .upgrade()
             .ok_or(anyhow!("Failed to pull Sheets Collection"))?
             .try_borrow_mut()
             .context("Failed to pull Sheets Collection")?
-            .retain(|item| item.0 != self.sheet_name);
-        self.workbook_relationship_part
-            .upgrade()
-            .ok_or(anyhow!("Failed to pull workbook relationship handle"))?
-            .try_borrow_mut()
-            .context("Failed to pull workbook relationship handle")?
+            .retain(|item| Some(&item.1) != relationship_id.as_ref());
+        workbook_relationship_part
             .delete_relationship_mut(&self.file_path)
             .context("Failed to delete the relationship")?;
         self.office_document
-- 
2.43.0


From da3c2908e977e791c1527bcfafc01a9106f670bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:13 +0000
Subject: [PATCH 35/58] fix: load workbook relationships of the part that
 belongs to the workbook

---
 rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
index 54b79ea..d4bc220 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
@@ -274,13 +274,15 @@ impl XmlDocumentPart for WorkbookPart {
                     .context("Failed to pull workbook file name")?
                     .to_string();
                 let mut file_tree = Self::get_xml_document(&office_document, &file_name)?;
+                // Relationship part is named after the workbook part of the package
+                let (directory, part_name) = match file_name.rfind("/") {
+                    Some(position) => file_name.split_at(position + 1),
+                    None => ("", file_name.as_str()),
+                };
                 let workbook_relationship_part = Rc::new(RefCell::new(
                     RelationsPart::new(
                         office_document.clone(),
-                        &format!(
-                            "{}/_rels/workbook.xml.rels",
-                            &file_name[..file_name.rfind("/").unwrap()]
-                        ),
+                        &format!("{}_rels/{}.rels", directory, part_name),
                     )
                     .context("Creating Relation ship part for workbook failed.")?,
                 ));
-- 
2.43.0


From 2291cbf95efc9cfcea60388d25adeee6d3f4929b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:27 +0000
Subject: [PATCH 36/58] fix: sheetProtection, legacyDrawing, legacyDrawingHF
 and mc:AlternateContent of a worksheet lost their place: they were not in the
 order table

---
 rs/src/global/references/order_dictionary.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rs/src/global/references/order_dictionary.rs b/rs/src/global/references/order_dictionary.rs
index 366d6b6..b65f81e 100644
--- a/rs/src/global/references/order_dictionary.rs
+++ b/rs/src/global/references/order_dictionary.rs
@@ -11,7 +11,7 @@ pub(crate) static EXCEL_ORDER_COLLECTION: Map<&'static str, &'static [&'static s
     ],
     "worksheet"=>&["sheetPr","dimension","sheetViews",
         "sheetFormatPr","cols","sheetData",
-        "sheetCalcPr","protectedRanges","scenarios",
+        "sheetCalcPr","sheetProtection","protectedRanges","scenarios",
         "autoFilter","sortState","dataConsolidate",
         "customSheetViews","mergeCells","phoneticPr",
         "conditionalFormatting",
@@ -19,8 +19,8 @@ pub(crate) static EXCEL_ORDER_COLLECTION: Map<&'static str, &'static [&'static s
         "pageMargins","pageSetup","headerFooter",
         "rowBreaks","colBreaks","customProperties",
         "cellWatches","ignoredErrors","smartTags",
-        "drawing","drawingHF","picture",
-        "oleObjects","controls","webPublishItems",
+        "drawing","legacyDrawing","legacyDrawingHF","drawingHF","picture",
+        "oleObjects","mc:AlternateContent","controls","webPublishItems",
         "tableParts","extLst",
     ],
 };
-- 
2.43.0


From 83d265831e0256a99471e52ba74706c777bdc088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:27 +0000
Subject: [PATCH 37/58] fix: a share string or calculation chain part with an
 extension list got its new entries behind it

---
 .../spreadsheet_2007/services/calculation_chain.rs           | 5 +++++
 rs/src/spreadsheet/spreadsheet_2007/services/share_string.rs | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/rs/src/spreadsheet/spreadsheet_2007/services/calculation_chain.rs b/rs/src/spreadsheet/spreadsheet_2007/services/calculation_chain.rs
index 2c141f6..06997d8 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/services/calculation_chain.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/services/calculation_chain.rs
@@ -43,6 +43,11 @@ impl XmlDocumentPartCommon for CalculationChainPart {
                                     .context("Failed To Add Child Item")?
                                     .set_attribute_mut(attributes)?;
                             }
+                            if let Some(root_element) = xml_doc_mut.get_root_mut() {
+                                root_element
+                                    .order_child_mut(&["c", "extLst"])
+                                    .context("Failed Reorder the element child's")?;
+                            }
                         }
                         office_doc_ref
                             .try_borrow_mut()
diff --git a/rs/src/spreadsheet/spreadsheet_2007/services/share_string.rs b/rs/src/spreadsheet/spreadsheet_2007/services/share_string.rs
index feaa3e9..2e6b5bd 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/services/share_string.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/services/share_string.rs
@@ -78,6 +78,11 @@ impl XmlDocumentPartCommon for ShareStringPart {
                                 }
                                 text_element.set_value_mut(string);
                             }
+                            if let Some(root_element) = xml_doc_mut.get_root_mut() {
+                                root_element
+                                    .order_child_mut(&["si", "extLst"])
+                                    .context("Failed Reorder the element child's")?;
+                            }
                         }
                         office_doc_ref
                             .try_borrow_mut()
-- 
2.43.0


From fdb28b5b9c39e1ae37361a5fdff104e86cc2b11e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:00 +0000
Subject: [PATCH 38/58] fix: attribute values were not unescaped when read, so
 every save escaped them again

---
 rs/src/files/xml/xml_deserialize.rs | 4 ++--
 rs/src/files/xml/xml_serialize.rs   | 5 ++++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/rs/src/files/xml/xml_deserialize.rs b/rs/src/files/xml/xml_deserialize.rs
index 3b6c24a..d6cedc9 100644
--- a/rs/src/files/xml/xml_deserialize.rs
+++ b/rs/src/files/xml/xml_deserialize.rs
@@ -131,9 +131,9 @@ impl XmlDeSerializer {
                             .iter()
                             .map(|(key, value)| {
                                 if key == "<Default>" {
-                                    format!("xmlns=\"{}\"", value)
+                                    format!("xmlns=\"{}\"", escape(value))
                                 } else {
-                                    format!("xmlns:{}=\"{}\"", key, value)
+                                    format!("xmlns:{}=\"{}\"", key, escape(value))
                                 }
                             })
                             .collect::<Vec<String>>()
diff --git a/rs/src/files/xml/xml_serialize.rs b/rs/src/files/xml/xml_serialize.rs
index d3c8ede..a592b2f 100644
--- a/rs/src/files/xml/xml_serialize.rs
+++ b/rs/src/files/xml/xml_serialize.rs
@@ -125,7 +125,10 @@ impl XmlSerializer {
                 let attribute: Attribute<'_> =
                     attribute_result.context("Failed to parse attribute")?;
                 let key: String = String::from_utf8_lossy(attribute.key.into_inner()).to_string();
-                let value: String = String::from_utf8_lossy(&attribute.value).to_string();
+                let value: String = attribute
+                    .unescape_value()
+                    .context("XML Attribute parsing error")?
+                    .to_string();
                 Ok((key, value))
             })
             .collect::<AnyResult<HashMap<String, String>>>()
-- 
2.43.0


From 6760074120762c68a3af38d0adb6b7217d426d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:00 +0000
Subject: [PATCH 39/58] fix: namespace declarations of nested elements were
 moved to the root, a nested default namespace replaced the root's

---
 rs/src/files/xml/xml_tree.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rs/src/files/xml/xml_tree.rs b/rs/src/files/xml/xml_tree.rs
index c23d203..82d0fe0 100644
--- a/rs/src/files/xml/xml_tree.rs
+++ b/rs/src/files/xml/xml_tree.rs
@@ -495,7 +495,8 @@ impl XmlElement {
         let ns_keys = keys
             .iter()
             .map(|item| item.to_string())
-            .filter(|item| item.starts_with("xmlns"))
+            // Declarations of other elements stay where they are
+            .filter(|item| self.id == 0 && (item == "xmlns" || item.starts_with("xmlns:")))
             .clone()
             .collect::<Vec<String>>();
         if !ns_keys.is_empty() {
-- 
2.43.0


From b9a2a3c6a02a7f12aa16c5311e08bfa04d51a85b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:00 +0000
Subject: [PATCH 40/58] fix: truncated XML, text or elements after the root
 were accepted, a self-closing root was rejected

---
 rs/src/files/xml/xml_serialize.rs | 39 ++++++++++++++++++++++++-------
 1 file changed, 31 insertions(+), 8 deletions(-)

diff --git a/rs/src/files/xml/xml_serialize.rs b/rs/src/files/xml/xml_serialize.rs
index a592b2f..d06cef2 100644
--- a/rs/src/files/xml/xml_serialize.rs
+++ b/rs/src/files/xml/xml_serialize.rs
@@ -38,6 +38,8 @@ impl XmlSerializer {
         let mut temp_buffer: Vec<u8> = Vec::new();
         let mut root_loaded = false;
         let mut active_xml_element_id: usize = 0;
+        // Number of elements not closed yet
+        let mut open_elements: usize = 0;
         loop {
             match reader.read_event_into(&mut temp_buffer) {
                 // Handle errors
@@ -50,7 +52,9 @@ impl XmlSerializer {
                         String::from_utf8_lossy(element.name().into_inner()).to_string();
                     let attributes = Self::get_attributes_string(element)?;
                     // Update tree structure
-                    if root_loaded {
+                    if root_loaded && open_elements == 0 {
+                        break Err(anyhow!("More than one root element"));
+                    } else if root_loaded {
                         // Add child to parent
                         active_xml_element_id = xml_document
                             .append_child_mut(&tag, Some(&active_xml_element_id))
@@ -68,6 +72,7 @@ impl XmlSerializer {
                             .get_id();
                         root_loaded = true
                     }
+                    open_elements += 1;
                 }
 
                 // Handle empty elements (self-closing tags)
@@ -75,11 +80,22 @@ impl XmlSerializer {
                     let tag: String =
                         String::from_utf8_lossy(element.name().into_inner()).to_string();
                     let attributes = Self::get_attributes_string(element)?;
-                    xml_document
-                        .append_child_mut(&tag, Some(&active_xml_element_id))
-                        .context("Insert XML Child Failed.")?
-                        .set_attribute_mut(attributes)
-                        .context("Parser Attribute Validation Failed")?;
+                    if root_loaded && open_elements == 0 {
+                        break Err(anyhow!("More than one root element"));
+                    } else if root_loaded {
+                        xml_document
+                            .append_child_mut(&tag, Some(&active_xml_element_id))
+                            .context("Insert XML Child Failed.")?
+                            .set_attribute_mut(attributes)
+                            .context("Parser Attribute Validation Failed")?;
+                    } else {
+                        xml_document
+                            .create_root_mut(&tag)
+                            .context("Create XML Root Element Failed")?
+                            .set_attribute_mut(attributes)
+                            .context("Parser Attribute Validation Failed")?;
+                        root_loaded = true
+                    }
                 }
 
                 // Read text content
@@ -102,14 +118,21 @@ impl XmlSerializer {
                         .ok_or(anyhow!("Converting Option to Result Failed"))
                         .context("Getting Target Element Failed")?;
                     if element.get_tag() == tag {
-                        active_xml_element_id = element.get_parent_id()
+                        active_xml_element_id = element.get_parent_id();
+                        open_elements -= 1;
                     } else {
                         break Err(anyhow!("Invalid XML Tree Parsing Failed."));
                     }
                 }
 
                 // End of file
-                Result::Ok(Event::Eof) => break Ok(()),
+                Result::Ok(Event::Eof) => {
+                    if root_loaded && open_elements == 0 {
+                        break Ok(());
+                    } else {
+                        break Err(anyhow!("Unexpected end of the XML document"));
+                    }
+                }
 
                 // Default case for other events
                 _ => {}
-- 
2.43.0


From 1eb10caf24fa5b85ce3315747bd8473c8e950da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:00 +0000
Subject: [PATCH 41/58] fix: CDATA was dropped, text split by a comment lost
 its first part, white space at the ends of text was dropped

---
 rs/src/files/xml/xml_serialize.rs | 38 ++++++++++++++++++++++++++-----
 rs/src/files/xml/xml_tree.rs      | 17 ++++++++++++++
 2 files changed, 49 insertions(+), 6 deletions(-)

diff --git a/rs/src/files/xml/xml_serialize.rs b/rs/src/files/xml/xml_serialize.rs
index d06cef2..f8a62ba 100644
--- a/rs/src/files/xml/xml_serialize.rs
+++ b/rs/src/files/xml/xml_serialize.rs
@@ -20,7 +20,6 @@ impl XmlSerializer {
     ) -> AnyResult<XmlDocument, AnyError> {
         let mut reader: NsReader<Cursor<Vec<u8>>> = NsReader::from_reader(Cursor::new(xml_str));
         let mut xml_document = XmlDocument::new();
-        reader.config_mut().trim_text(true);
         log_elapsed!(
             || {
                 Self::xml_element_parser(&mut reader, &mut xml_document)
@@ -101,11 +100,21 @@ impl XmlSerializer {
                 // Read text content
                 Result::Ok(Event::Text(byte_text)) => {
                     let text = byte_text.unescape().context("XML Text parsing error")?;
-                    xml_document
-                        .get_element_mut(&active_xml_element_id)
-                        .ok_or(anyhow!("Converting Option to Result Failed"))
-                        .context("Getting Target Element Failed")?
-                        .set_value_mut(text.to_string());
+                    if open_elements > 0 {
+                        Self::append_text(xml_document, &active_xml_element_id, &text)?;
+                    } else if !text.trim().is_empty() {
+                        break Err(anyhow!("Text outside of the root element"));
+                    }
+                }
+
+                // Read literal text content
+                Result::Ok(Event::CData(byte_text)) => {
+                    let text = std::str::from_utf8(&byte_text).context("XML Text parsing error")?;
+                    if open_elements > 0 {
+                        Self::append_text(xml_document, &active_xml_element_id, text)?;
+                    } else {
+                        break Err(anyhow!("Text outside of the root element"));
+                    }
                 }
 
                 // Handle end tag
@@ -118,6 +127,7 @@ impl XmlSerializer {
                         .ok_or(anyhow!("Converting Option to Result Failed"))
                         .context("Getting Target Element Failed")?;
                     if element.get_tag() == tag {
+                        element.drop_layout_text_mut();
                         active_xml_element_id = element.get_parent_id();
                         open_elements -= 1;
                     } else {
@@ -141,6 +151,22 @@ impl XmlSerializer {
         }
     }
 
+    /// Text may come in several pieces, comments and literal sections split it
+    fn append_text(
+        xml_document: &mut XmlDocument,
+        element_id: &usize,
+        text: &str,
+    ) -> AnyResult<(), AnyError> {
+        let element = xml_document
+            .get_element_mut(element_id)
+            .ok_or(anyhow!("Converting Option to Result Failed"))
+            .context("Getting Target Element Failed")?;
+        let mut value = element.get_value().clone().unwrap_or_default();
+        value.push_str(text);
+        element.set_value_mut(value);
+        Ok(())
+    }
+
     fn get_attributes_string(element: BytesStart) -> AnyResult<HashMap<String, String>, AnyError> {
         element
             .attributes()
diff --git a/rs/src/files/xml/xml_tree.rs b/rs/src/files/xml/xml_tree.rs
index 82d0fe0..7fa4abc 100644
--- a/rs/src/files/xml/xml_tree.rs
+++ b/rs/src/files/xml/xml_tree.rs
@@ -534,6 +534,23 @@ impl XmlElement {
         self
     }
 
+    /// Drop white space that only lays out the document
+    pub(crate) fn drop_layout_text_mut(&mut self) {
+        let is_blank = self
+            .value
+            .as_ref()
+            .is_some_and(|value| value.trim().is_empty());
+        if is_blank {
+            let is_preserved = self.children.borrow().len() == 0
+                && self.attributes.as_ref().is_some_and(|attributes| {
+                    attributes.get("xml:space").map(String::as_str) == Some("preserve")
+                });
+            if !is_preserved {
+                self.value = None;
+            }
+        }
+    }
+
     fn append_children_mut(&mut self, child_id: usize, tag: &str) -> AnyResult<(), AnyError> {
         self.children
             .try_borrow_mut()
-- 
2.43.0


From 81f3d3844b89cf50f0e1f2d54b6ffea1a85933eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:01 +0000
Subject: [PATCH 42/58] fix: children of an element that also has text were not
 written

---
 rs/src/files/xml/xml_deserialize.rs | 90 ++++++++++++++---------------
 1 file changed, 43 insertions(+), 47 deletions(-)

diff --git a/rs/src/files/xml/xml_deserialize.rs b/rs/src/files/xml/xml_deserialize.rs
index d6cedc9..a2b9f33 100644
--- a/rs/src/files/xml/xml_deserialize.rs
+++ b/rs/src/files/xml/xml_deserialize.rs
@@ -52,61 +52,57 @@ impl XmlDeSerializer {
             } else {
                 master_string.push_str(Self::generate_xml_element(xml_root, false, true).as_str());
                 if let Some(value) = xml_root.get_value() {
-                    master_string.push_str(&Self::generate_xml_value_close(value, xml_root));
-                } else {
-                    let mut parent_id = 0;
-                    loop {
-                        current_count += 1;
-                        if current_count > max_count {
-                            return Err(anyhow!("Loop Safety Error Triggered at XML Deserialized"));
-                        }
-                        if let Some(current_element) = xml_document.get_element(&parent_id) {
-                            if let Some((current_id, element_tag)) = current_element.pop_child_mut()
-                            {
-                                // Pop Next Valid Child From the tree
-                                if let Some(element) = xml_document.get_element(&current_id) {
-                                    if element.is_empty_tag() {
-                                        master_string.push_str(
-                                            Self::generate_xml_element(element, true, false)
-                                                .as_str(),
-                                        );
-                                    } else {
-                                        master_string.push_str(
-                                            Self::generate_xml_element(element, false, false)
-                                                .as_str(),
-                                        );
-                                        if let Some(value) = element.get_value() {
-                                            master_string.push_str(
-                                                &Self::generate_xml_value_close(value, element),
-                                            );
-                                        } else {
-                                            parent_id = current_id
-                                        }
-                                    }
-                                } else {
-                                    return Err(anyhow!(
-                                        "Un know element ID is Pull failed : {}",
-                                        element_tag
-                                    ));
-                                }
-                            } else {
-                                if parent_id == 0 {
-                                    break;
+                    master_string.push_str(&escape(value));
+                }
+                let mut parent_id = 0;
+                loop {
+                    current_count += 1;
+                    if current_count > max_count {
+                        return Err(anyhow!("Loop Safety Error Triggered at XML Deserialized"));
+                    }
+                    if let Some(current_element) = xml_document.get_element(&parent_id) {
+                        if let Some((current_id, element_tag)) = current_element.pop_child_mut()
+                        {
+                            // Pop Next Valid Child From the tree
+                            if let Some(element) = xml_document.get_element(&current_id) {
+                                if element.is_empty_tag() {
+                                    master_string.push_str(
+                                        Self::generate_xml_element(element, true, false)
+                                            .as_str(),
+                                    );
                                 } else {
-                                    // Travel Up as there is no active child to continue
-                                    if let Some(element) = xml_document.get_element(&parent_id) {
-                                        master_string
-                                            .push_str(&Self::generate_xml_value_close("", element));
-                                        parent_id = element.get_parent_id()
+                                    master_string.push_str(
+                                        Self::generate_xml_element(element, false, false)
+                                            .as_str(),
+                                    );
+                                    if let Some(value) = element.get_value() {
+                                        master_string.push_str(&escape(value));
                                     }
+                                    parent_id = current_id
                                 }
+                            } else {
+                                return Err(anyhow!(
+                                    "Un know element ID is Pull failed : {}",
+                                    element_tag
+                                ));
                             }
                         } else {
-                            return Err(anyhow!("Un know Element pull failed"));
+                            if parent_id == 0 {
+                                break;
+                            } else {
+                                // Travel Up as there is no active child to continue
+                                if let Some(element) = xml_document.get_element(&parent_id) {
+                                    master_string
+                                        .push_str(&Self::generate_xml_value_close("", element));
+                                    parent_id = element.get_parent_id()
+                                }
+                            }
                         }
+                    } else {
+                        return Err(anyhow!("Un know Element pull failed"));
                     }
-                    master_string.push_str(&Self::generate_xml_value_close("", xml_root));
                 }
+                master_string.push_str(&Self::generate_xml_value_close("", xml_root));
             }
         }
         Ok(())
-- 
2.43.0


From 0508aaf445e4206a5db264d0e6f5aca8ee419d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:01 +0000
Subject: [PATCH 43/58] fix: inline strings, cell values and formulas lost the
 white space at their ends

---
 .../spreadsheet_2007/parts/worksheet.rs       | 42 ++++++++++++-------
 1 file changed, 26 insertions(+), 16 deletions(-)

diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
index a83ae2c..a4eddde 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
@@ -1,7 +1,7 @@
 use crate::{
     converters::ConverterUtil,
     element_dictionary::EXCEL_TYPE_COLLECTION,
-    files::{OfficeDocument, XmlDocument, XmlSerializer},
+    files::{OfficeDocument, XmlDocument, XmlElement, XmlSerializer},
     global_2007::{
         parts::RelationsPart,
         traits::{Enum, XmlDocumentPartCommon},
@@ -597,29 +597,25 @@ impl WorkSheet {
                                 let text_element = xml_doc_mut
                                     .append_child_mut("t", Some(&inline_string_id))
                                     .context("Failed To insert Text Value to inline string")?;
-                                text_element.set_value_mut(
-                                    if let Some(value) = cell_record.value {
-                                        value
-                                    } else {
-                                        "".to_string()
-                                    },
-                                );
+                                Self::set_text_mut(
+                                    text_element,
+                                    cell_record.value.unwrap_or_default(),
+                                )?;
                             }
                             _ => {
                                 if let Some(formula) = cell_record.formula {
                                     let formula_element = xml_doc_mut
                                         .append_child_mut("f", Some(&cell_id))
                                         .context("Failed to insert Inline string element")?;
-                                    formula_element.set_value_mut(formula);
+                                    Self::set_text_mut(formula_element, formula)?;
                                 }
-                                xml_doc_mut
+                                let value_element = xml_doc_mut
                                     .append_child_mut("v", Some(&cell_id))
-                                    .context("Failed to insert Inline string element")?
-                                    .set_value_mut(if let Some(value) = cell_record.value {
-                                        value
-                                    } else {
-                                        "".to_string()
-                                    });
+                                    .context("Failed to insert Inline string element")?;
+                                Self::set_text_mut(
+                                    value_element,
+                                    cell_record.value.unwrap_or_default(),
+                                )?;
                             }
                         }
                     }
@@ -628,6 +624,20 @@ impl WorkSheet {
         }
         Ok(())
     }
+
+    /// Readers drop white space at the ends of the text unless told otherwise
+    fn set_text_mut(element: &mut XmlElement, text: String) -> AnyResult<(), AnyError> {
+        if text.trim() != text {
+            element
+                .set_attribute_mut(HashMap::from([(
+                    "xml:space".to_string(),
+                    "preserve".to_string(),
+                )]))
+                .context("Failed to keep the white space of the text")?;
+        }
+        element.set_value_mut(text);
+        Ok(())
+    }
 }
 
 fn deserialize_cols(
-- 
2.43.0


From a4085313a3f65d5b11ce8aaa08903603429f2c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:37 +0000
Subject: [PATCH 44/58] fix: read italic, underline and switched-off bold of
 fonts

---
 .../spreadsheet_2007/services/style.rs        | 33 ++++++++++++++-----
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/rs/src/spreadsheet/spreadsheet_2007/services/style.rs b/rs/src/spreadsheet/spreadsheet_2007/services/style.rs
index c6c63ae..5df5206 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/services/style.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/services/style.rs
@@ -222,20 +222,27 @@ impl StylePart {
                                         .pop_element_mut(&item_id)
                                         .ok_or(anyhow!("Failed to pull child element"))?;
                                     match current_element.get_tag() {
-                                        "b" => font_style.is_bold = true,
+                                        "b" => {
+                                            font_style.is_bold =
+                                                StylePart::is_font_flag_set(&current_element)
+                                        }
                                         "u" => {
-                                            if let Some(attributes) =
-                                                current_element.get_attribute()
+                                            match current_element
+                                                .get_attribute()
+                                                .and_then(|attributes| attributes.get("val"))
+                                                .map(String::as_str)
                                             {
-                                                if let Some(double) = attributes.get("val") {
-                                                    if double == "double" {
-                                                        font_style.is_double_underline = true;
-                                                    }
+                                                Some("double") => {
+                                                    font_style.is_double_underline = true
                                                 }
+                                                Some("none") => {}
+                                                _ => font_style.is_underline = true,
                                             }
-                                            font_style.is_underline = false;
                                         }
-                                        "i" => font_style.is_italic = false,
+                                        "i" => {
+                                            font_style.is_italic =
+                                                StylePart::is_font_flag_set(&current_element)
+                                        }
                                         "sz" => {
                                             if let Some(attributes) =
                                                 current_element.get_attribute()
@@ -788,6 +795,14 @@ impl StylePart {
         Ok(())
     }
 
+    /// Font flags are set by presence unless the value says otherwise
+    fn is_font_flag_set(element: &XmlElement) -> bool {
+        element
+            .get_attribute()
+            .and_then(|attributes| attributes.get("val"))
+            .map_or(true, |value| ConverterUtil::normalize_bool_property_u8(value) == 1)
+    }
+
     pub(crate) fn deserialize_cell_style(
         style_xfs: XmlElement,
         xml_doc_mut: &mut XmlDocument,
-- 
2.43.0


From 6fd9584e974884f1ea123c20937a56380bcb773f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:37 +0000
Subject: [PATCH 45/58] fix: keep fractional font sizes

---
 rs/src/spreadsheet/spreadsheet_2007/models/style.rs   | 4 ++--
 rs/src/spreadsheet/spreadsheet_2007/services/style.rs | 8 +++-----
 2 files changed, 5 insertions(+), 7 deletions(-)

diff --git a/rs/src/spreadsheet/spreadsheet_2007/models/style.rs b/rs/src/spreadsheet/spreadsheet_2007/models/style.rs
index b566931..6761fcb 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/models/style.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/models/style.rs
@@ -386,7 +386,7 @@ impl Default for NumberFormat {
 #[derive(Debug, Clone, Hash, Deserialize, Serialize)]
 pub(crate) struct FontStyle {
     pub(crate) name: String,
-    pub(crate) size: u8,
+    pub(crate) size: String,
     pub(crate) color: ColorSetting,
     pub(crate) family: u32,
     pub(crate) font_scheme: FontSchemeValues,
@@ -400,7 +400,7 @@ impl Default for FontStyle {
     fn default() -> Self {
         Self {
             name: "Calibri".to_string(),
-            size: 11,
+            size: "11".to_string(),
             color: ColorSetting {
                 value: "1".to_string(),
                 ..Default::default()
diff --git a/rs/src/spreadsheet/spreadsheet_2007/services/style.rs b/rs/src/spreadsheet/spreadsheet_2007/services/style.rs
index 5df5206..d1146da 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/services/style.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/services/style.rs
@@ -248,9 +248,7 @@ impl StylePart {
                                                 current_element.get_attribute()
                                             {
                                                 if let Some(val) = attributes.get("val") {
-                                                    font_style.size = val
-                                                        .parse()
-                                                        .context("Font Size Parse Failed")?
+                                                    font_style.size = val.to_string()
                                                 }
                                             }
                                         }
@@ -631,7 +629,7 @@ impl StylePart {
                         .append_child_mut("sz", Some(&font_id))
                         .context("Create Size Failed")?;
                     let mut size_attributes: HashMap<String, String> = HashMap::new();
-                    size_attributes.insert("val".to_string(), font_style.size.to_string());
+                    size_attributes.insert("val".to_string(), font_style.size.clone());
                     size.set_attribute_mut(size_attributes)
                         .context("Setting Size Attribute Failing")?;
                     StylePart::add_color_element(
@@ -1137,7 +1135,7 @@ impl StylePart {
                     is_underline: style_setting.is_underline,
                     is_double_underline: style_setting.is_double_underline,
                     color: style_setting.text_color,
-                    size: style_setting.font_size,
+                    size: style_setting.font_size.to_string(),
                     ..Default::default()
                 };
                 font_style.hash(&mut hasher);
-- 
2.43.0


From bccf8f75ffd61be6aee859e17d5080dabf82b96c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:37 +0000
Subject: [PATCH 46/58] fix: keep every fill pattern and alignment

---
 .../spreadsheet_2007/models/style.rs          | 63 +++++++++++++++++++
 1 file changed, 63 insertions(+)

diff --git a/rs/src/spreadsheet/spreadsheet_2007/models/style.rs b/rs/src/spreadsheet/spreadsheet_2007/models/style.rs
index 6761fcb..bcb93d9 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/models/style.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/models/style.rs
@@ -156,6 +156,22 @@ pub enum PatternTypeValues {
     None,
     Gray125,
     Solid,
+    MediumGray,
+    DarkGray,
+    LightGray,
+    DarkHorizontal,
+    DarkVertical,
+    DarkDown,
+    DarkUp,
+    DarkGrid,
+    DarkTrellis,
+    LightHorizontal,
+    LightVertical,
+    LightDown,
+    LightUp,
+    LightGrid,
+    LightTrellis,
+    Gray0625,
 }
 
 impl Enum<PatternTypeValues> for PatternTypeValues {
@@ -163,6 +179,22 @@ impl Enum<PatternTypeValues> for PatternTypeValues {
         match input_enum {
             PatternTypeValues::Solid => "solid".to_string(),
             PatternTypeValues::Gray125 => "gray125".to_string(),
+            PatternTypeValues::MediumGray => "mediumGray".to_string(),
+            PatternTypeValues::DarkGray => "darkGray".to_string(),
+            PatternTypeValues::LightGray => "lightGray".to_string(),
+            PatternTypeValues::DarkHorizontal => "darkHorizontal".to_string(),
+            PatternTypeValues::DarkVertical => "darkVertical".to_string(),
+            PatternTypeValues::DarkDown => "darkDown".to_string(),
+            PatternTypeValues::DarkUp => "darkUp".to_string(),
+            PatternTypeValues::DarkGrid => "darkGrid".to_string(),
+            PatternTypeValues::DarkTrellis => "darkTrellis".to_string(),
+            PatternTypeValues::LightHorizontal => "lightHorizontal".to_string(),
+            PatternTypeValues::LightVertical => "lightVertical".to_string(),
+            PatternTypeValues::LightDown => "lightDown".to_string(),
+            PatternTypeValues::LightUp => "lightUp".to_string(),
+            PatternTypeValues::LightGrid => "lightGrid".to_string(),
+            PatternTypeValues::LightTrellis => "lightTrellis".to_string(),
+            PatternTypeValues::Gray0625 => "gray0625".to_string(),
             PatternTypeValues::None => "none".to_string(),
         }
     }
@@ -171,6 +203,22 @@ impl Enum<PatternTypeValues> for PatternTypeValues {
         match input_string {
             "solid" => PatternTypeValues::Solid,
             "gray125" => PatternTypeValues::Gray125,
+            "mediumGray" => PatternTypeValues::MediumGray,
+            "darkGray" => PatternTypeValues::DarkGray,
+            "lightGray" => PatternTypeValues::LightGray,
+            "darkHorizontal" => PatternTypeValues::DarkHorizontal,
+            "darkVertical" => PatternTypeValues::DarkVertical,
+            "darkDown" => PatternTypeValues::DarkDown,
+            "darkUp" => PatternTypeValues::DarkUp,
+            "darkGrid" => PatternTypeValues::DarkGrid,
+            "darkTrellis" => PatternTypeValues::DarkTrellis,
+            "lightHorizontal" => PatternTypeValues::LightHorizontal,
+            "lightVertical" => PatternTypeValues::LightVertical,
+            "lightDown" => PatternTypeValues::LightDown,
+            "lightUp" => PatternTypeValues::LightUp,
+            "lightGrid" => PatternTypeValues::LightGrid,
+            "lightTrellis" => PatternTypeValues::LightTrellis,
+            "gray0625" => PatternTypeValues::Gray0625,
             _ => PatternTypeValues::None,
         }
     }
@@ -317,6 +365,9 @@ pub enum HorizontalAlignmentValues {
     CENTER,
     RIGHT,
     JUSTIFY,
+    FILL,
+    CENTERCONTINUOUS,
+    DISTRIBUTED,
 }
 
 impl Enum<HorizontalAlignmentValues> for HorizontalAlignmentValues {
@@ -326,6 +377,9 @@ impl Enum<HorizontalAlignmentValues> for HorizontalAlignmentValues {
             HorizontalAlignmentValues::CENTER => "center".to_string(),
             HorizontalAlignmentValues::RIGHT => "right".to_string(),
             HorizontalAlignmentValues::JUSTIFY => "justify".to_string(),
+            HorizontalAlignmentValues::FILL => "fill".to_string(),
+            HorizontalAlignmentValues::CENTERCONTINUOUS => "centerContinuous".to_string(),
+            HorizontalAlignmentValues::DISTRIBUTED => "distributed".to_string(),
             HorizontalAlignmentValues::None => "none".to_string(),
         }
     }
@@ -335,6 +389,9 @@ impl Enum<HorizontalAlignmentValues> for HorizontalAlignmentValues {
             "center" => HorizontalAlignmentValues::CENTER,
             "right" => HorizontalAlignmentValues::RIGHT,
             "justify" => HorizontalAlignmentValues::JUSTIFY,
+            "fill" => HorizontalAlignmentValues::FILL,
+            "centerContinuous" => HorizontalAlignmentValues::CENTERCONTINUOUS,
+            "distributed" => HorizontalAlignmentValues::DISTRIBUTED,
             _ => HorizontalAlignmentValues::None,
         }
     }
@@ -346,6 +403,8 @@ pub enum VerticalAlignmentValues {
     Top,
     Middle,
     Bottom,
+    Justify,
+    Distributed,
 }
 
 impl Enum<VerticalAlignmentValues> for VerticalAlignmentValues {
@@ -354,6 +413,8 @@ impl Enum<VerticalAlignmentValues> for VerticalAlignmentValues {
             VerticalAlignmentValues::Top => "top".to_string(),
             VerticalAlignmentValues::Middle => "center".to_string(),
             VerticalAlignmentValues::Bottom => "bottom".to_string(),
+            VerticalAlignmentValues::Justify => "justify".to_string(),
+            VerticalAlignmentValues::Distributed => "distributed".to_string(),
             VerticalAlignmentValues::None => "none".to_string(),
         }
     }
@@ -362,6 +423,8 @@ impl Enum<VerticalAlignmentValues> for VerticalAlignmentValues {
             "top" => VerticalAlignmentValues::Top,
             "center" => VerticalAlignmentValues::Middle,
             "bottom" => VerticalAlignmentValues::Bottom,
+            "justify" => VerticalAlignmentValues::Justify,
+            "distributed" => VerticalAlignmentValues::Distributed,
             _ => VerticalAlignmentValues::None,
         }
     }
-- 
2.43.0


From 2bf404f8355df6efe5621b1aa4c7591018aca1e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:38 +0000
Subject: [PATCH 47/58] fix: keep switched-off apply flags of cell formats

---
 .../spreadsheet_2007/models/style.rs          | 24 ++++-----
 .../spreadsheet_2007/services/style.rs        | 54 ++++++++++---------
 2 files changed, 40 insertions(+), 38 deletions(-)

diff --git a/rs/src/spreadsheet/spreadsheet_2007/models/style.rs b/rs/src/spreadsheet/spreadsheet_2007/models/style.rs
index bcb93d9..14ebf4b 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/models/style.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/models/style.rs
@@ -484,12 +484,12 @@ pub(crate) struct CellXfs {
     pub(crate) font_id: u16,
     pub(crate) fill_id: u16,
     pub(crate) border_id: u16,
-    pub(crate) apply_font: u8,
-    pub(crate) apply_alignment: u8,
-    pub(crate) apply_fill: u8,
-    pub(crate) apply_border: u8,
-    pub(crate) apply_number_format: u8,
-    pub(crate) apply_protection: u8,
+    pub(crate) apply_font: Option<u8>,
+    pub(crate) apply_alignment: Option<u8>,
+    pub(crate) apply_fill: Option<u8>,
+    pub(crate) apply_border: Option<u8>,
+    pub(crate) apply_number_format: Option<u8>,
+    pub(crate) apply_protection: Option<u8>,
     pub(crate) is_wrap_text: u8,
     pub(crate) horizontal_alignment: HorizontalAlignmentValues,
     pub(crate) vertical_alignment: VerticalAlignmentValues,
@@ -503,12 +503,12 @@ impl Default for CellXfs {
             font_id: 0,
             fill_id: 0,
             border_id: 0,
-            apply_font: 0,
-            apply_alignment: 0,
-            apply_fill: 0,
-            apply_border: 0,
-            apply_number_format: 0,
-            apply_protection: 0,
+            apply_font: None,
+            apply_alignment: None,
+            apply_fill: None,
+            apply_border: None,
+            apply_number_format: None,
+            apply_protection: None,
             is_wrap_text: 0,
             horizontal_alignment: HorizontalAlignmentValues::None,
             vertical_alignment: VerticalAlignmentValues::None,
diff --git a/rs/src/spreadsheet/spreadsheet_2007/services/style.rs b/rs/src/spreadsheet/spreadsheet_2007/services/style.rs
index d1146da..7435c23 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/services/style.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/services/style.rs
@@ -834,25 +834,27 @@ impl StylePart {
                         }
                         if let Some(apply_protection) = attributes.get("applyProtection") {
                             cell_xf.apply_protection =
-                                ConverterUtil::normalize_bool_property_u8(apply_protection);
+                            Some(ConverterUtil::normalize_bool_property_u8(apply_protection));
                         }
                         if let Some(apply_alignment) = attributes.get("applyAlignment") {
                             cell_xf.apply_alignment =
-                                ConverterUtil::normalize_bool_property_u8(apply_alignment);
+                            Some(ConverterUtil::normalize_bool_property_u8(apply_alignment));
                         }
                         if let Some(apply_border) = attributes.get("applyBorder") {
                             cell_xf.apply_border =
-                                ConverterUtil::normalize_bool_property_u8(apply_border);
+                            Some(ConverterUtil::normalize_bool_property_u8(apply_border));
                         }
                         if let Some(apply_fill) = attributes.get("applyFill") {
-                            cell_xf.apply_fill = ConverterUtil::normalize_bool_property_u8(apply_fill);
+                            cell_xf.apply_fill =
+                            Some(ConverterUtil::normalize_bool_property_u8(apply_fill));
                         }
                         if let Some(apply_font) = attributes.get("applyFont") {
-                            cell_xf.apply_font = ConverterUtil::normalize_bool_property_u8(apply_font);
+                            cell_xf.apply_font =
+                            Some(ConverterUtil::normalize_bool_property_u8(apply_font));
                         }
                         if let Some(apply_number_format) = attributes.get("applyNumberFormat") {
                             cell_xf.apply_number_format =
-                                ConverterUtil::normalize_bool_property_u8(apply_number_format);
+                            Some(ConverterUtil::normalize_bool_property_u8(apply_number_format));
                         }
                         // Load Alignment Values if exist
                         if let Some((alignment_id, _)) = current_element.pop_child_mut() {
@@ -1016,31 +1018,31 @@ impl StylePart {
             if enable_format_id {
                 attributes.insert("xfId".to_string(), xfs.format_id.to_string());
             }
-            if xfs.apply_font > 0 {
-                attributes.insert("applyFont".to_string(), xfs.apply_font.to_string());
+            if let Some(apply_font) = xfs.apply_font {
+                attributes.insert("applyFont".to_string(), apply_font.to_string());
             }
-            if xfs.apply_alignment > 0 {
+            if let Some(apply_alignment) = xfs.apply_alignment {
                 attributes.insert(
                     "applyAlignment".to_string(),
-                    xfs.apply_alignment.to_string(),
+                    apply_alignment.to_string(),
                 );
             }
-            if xfs.apply_fill > 0 {
-                attributes.insert("applyFill".to_string(), xfs.apply_fill.to_string());
+            if let Some(apply_fill) = xfs.apply_fill {
+                attributes.insert("applyFill".to_string(), apply_fill.to_string());
             }
-            if xfs.apply_border > 0 {
-                attributes.insert("applyBorder".to_string(), xfs.apply_border.to_string());
+            if let Some(apply_border) = xfs.apply_border {
+                attributes.insert("applyBorder".to_string(), apply_border.to_string());
             }
-            if xfs.apply_number_format > 0 {
+            if let Some(apply_number_format) = xfs.apply_number_format {
                 attributes.insert(
                     "applyNumberFormat".to_string(),
-                    xfs.apply_number_format.to_string(),
+                    apply_number_format.to_string(),
                 );
             }
-            if xfs.apply_protection > 0 {
+            if let Some(apply_protection) = xfs.apply_protection {
                 attributes.insert(
                     "applyProtection".to_string(),
-                    xfs.apply_protection.to_string(),
+                    apply_protection.to_string(),
                 );
             }
             xf.set_attribute_mut(attributes)
@@ -1096,7 +1098,7 @@ impl StylePart {
         } else {
             let mut cell_style = CellXfs::default();
             if style_setting.number_format == NumberFormatValues::Custom {
-                cell_style.apply_number_format = 1;
+                cell_style.apply_number_format = Some(1);
                 // Get Number Format ID
                 if let Some(custom_format) = style_setting.custom_number_format {
                     let mut hasher = DefaultHasher::new();
@@ -1147,12 +1149,12 @@ impl StylePart {
                 {
                     cell_style.font_id = position as u16;
                     if position > 0 {
-                        cell_style.apply_font = 1;
+                        cell_style.apply_font = Some(1);
                     }
                 } else {
                     self.font_collection.push((current_hash, font_style));
                     cell_style.font_id = (self.font_collection.len() - 1) as u16;
-                    cell_style.apply_font = 1;
+                    cell_style.apply_font = Some(1);
                 }
             }
             // Get Fill Style ID
@@ -1189,12 +1191,12 @@ impl StylePart {
                 {
                     cell_style.fill_id = position as u16;
                     if position > 0 {
-                        cell_style.apply_fill = 1;
+                        cell_style.apply_fill = Some(1);
                     }
                 } else {
                     self.fill_collection.push((current_hash, fill_style));
                     cell_style.fill_id = (self.fill_collection.len() - 1) as u16;
-                    cell_style.apply_fill = 1;
+                    cell_style.apply_fill = Some(1);
                 }
             }
             // Get Border Style ID
@@ -1217,12 +1219,12 @@ impl StylePart {
                 {
                     cell_style.border_id = position as u16;
                     if position > 0 {
-                        cell_style.apply_border = 1;
+                        cell_style.apply_border = Some(1);
                     }
                 } else {
                     self.border_collection.push((current_hash, border_style));
                     cell_style.border_id = (self.border_collection.len() - 1) as u16;
-                    cell_style.apply_border = 1;
+                    cell_style.apply_border = Some(1);
                 }
             }
             // Get Cell Style xfs to find xfId
@@ -1232,7 +1234,7 @@ impl StylePart {
                     || style_setting.horizontal_alignment != HorizontalAlignmentValues::None
                     || style_setting.is_wrap_text
                 {
-                    cell_style.apply_alignment = 1;
+                    cell_style.apply_alignment = Some(1);
                 }
                 cell_style.vertical_alignment = style_setting.vertical_alignment;
                 cell_style.horizontal_alignment = style_setting.horizontal_alignment;
-- 
2.43.0


From 8c650a9776b42790366767261cb997b8b68d849a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:38 +0000
Subject: [PATCH 48/58] fix: resolve built-in and custom number formats to
 their ids

---
 .../spreadsheet_2007/services/style.rs        | 29 +++++++++++++------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/rs/src/spreadsheet/spreadsheet_2007/services/style.rs b/rs/src/spreadsheet/spreadsheet_2007/services/style.rs
index 7435c23..d77d8e4 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/services/style.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/services/style.rs
@@ -1102,30 +1102,41 @@ impl StylePart {
                 // Get Number Format ID
                 if let Some(custom_format) = style_setting.custom_number_format {
                     let mut hasher = DefaultHasher::new();
+                    // Ids up to 163 stand for the built-in formats
+                    let next_format_id = self
+                        .number_format_collection
+                        .iter()
+                        .map(|(_, item)| item.format_id)
+                        .fold(163, usize::max)
+                        + 1;
                     let number_format = NumberFormat {
                         format_code: custom_format,
                         format_type: NumberFormatValues::Custom,
-                        ..Default::default()
+                        format_id: next_format_id,
                     };
-                    number_format.hash(&mut hasher);
-                    let current_hash = hasher.finish();
-                    if let Some(position) = self
+                    if let Some((_, existing_format)) = self
                         .number_format_collection
                         .iter()
-                        .position(|(hash, _)| *hash == current_hash)
+                        .find(|(_, item)| item.format_code == number_format.format_code)
                     {
-                        cell_style.number_format_id = position as u16 + 163;
+                        cell_style.number_format_id = existing_format.format_id as u16;
                     } else {
+                        number_format.hash(&mut hasher);
                         self.number_format_collection
-                            .push((current_hash, number_format));
-                        cell_style.number_format_id =
-                            (self.number_format_collection.len() - 1) as u16;
+                            .push((hasher.finish(), number_format));
+                        cell_style.number_format_id = next_format_id as u16;
                     }
                 } else {
                     return Err(anyhow!(
                         "Custom Format Type is used without providing custom number format."
                     ));
                 }
+            } else if style_setting.number_format != NumberFormatValues::General {
+                cell_style.apply_number_format = Some(1);
+                cell_style.number_format_id =
+                    NumberFormatValues::get_string(style_setting.number_format)
+                        .parse()
+                        .context("Built-in Number Format Id Parse Failed")?;
             }
             // Get Font Style ID
             {
-- 
2.43.0


From f586343bfe08634e78c3bc0b410435acce6c05cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:38 +0000
Subject: [PATCH 49/58] fix: give a repeated style request the same id in an
 empty style table

---
 .../spreadsheet/spreadsheet_2007/services/style.rs   | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/rs/src/spreadsheet/spreadsheet_2007/services/style.rs b/rs/src/spreadsheet/spreadsheet_2007/services/style.rs
index d77d8e4..bf6a76e 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/services/style.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/services/style.rs
@@ -1165,7 +1165,9 @@ impl StylePart {
                 } else {
                     self.font_collection.push((current_hash, font_style));
                     cell_style.font_id = (self.font_collection.len() - 1) as u16;
-                    cell_style.apply_font = Some(1);
+                    if cell_style.font_id > 0 {
+                        cell_style.apply_font = Some(1);
+                    }
                 }
             }
             // Get Fill Style ID
@@ -1207,7 +1209,9 @@ impl StylePart {
                 } else {
                     self.fill_collection.push((current_hash, fill_style));
                     cell_style.fill_id = (self.fill_collection.len() - 1) as u16;
-                    cell_style.apply_fill = Some(1);
+                    if cell_style.fill_id > 0 {
+                        cell_style.apply_fill = Some(1);
+                    }
                 }
             }
             // Get Border Style ID
@@ -1235,7 +1239,9 @@ impl StylePart {
                 } else {
                     self.border_collection.push((current_hash, border_style));
                     cell_style.border_id = (self.border_collection.len() - 1) as u16;
-                    cell_style.apply_border = Some(1);
+                    if cell_style.border_id > 0 {
+                        cell_style.apply_border = Some(1);
+                    }
                 }
             }
             // Get Cell Style xfs to find xfId
-- 
2.43.0


From 14cd756c60000e805674a2d96ffca1686881951d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:38 +0000
Subject: [PATCH 50/58] fix: do not give fonts without color or family one

---
 .../spreadsheet_2007/models/style.rs          | 11 ++--
 .../spreadsheet_2007/services/style.rs        | 57 ++++++++++---------
 2 files changed, 35 insertions(+), 33 deletions(-)

diff --git a/rs/src/spreadsheet/spreadsheet_2007/models/style.rs b/rs/src/spreadsheet/spreadsheet_2007/models/style.rs
index 14ebf4b..8ae1e84 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/models/style.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/models/style.rs
@@ -450,8 +450,8 @@ impl Default for NumberFormat {
 pub(crate) struct FontStyle {
     pub(crate) name: String,
     pub(crate) size: String,
-    pub(crate) color: ColorSetting,
-    pub(crate) family: u32,
+    pub(crate) color: Option<ColorSetting>,
+    pub(crate) family: Option<u32>,
     pub(crate) font_scheme: FontSchemeValues,
     pub(crate) is_bold: bool,
     pub(crate) is_double_underline: bool,
@@ -464,11 +464,8 @@ impl Default for FontStyle {
         Self {
             name: "Calibri".to_string(),
             size: "11".to_string(),
-            color: ColorSetting {
-                value: "1".to_string(),
-                ..Default::default()
-            },
-            family: 2,
+            color: None,
+            family: None,
             font_scheme: FontSchemeValues::None,
             is_bold: false,
             is_double_underline: false,
diff --git a/rs/src/spreadsheet/spreadsheet_2007/services/style.rs b/rs/src/spreadsheet/spreadsheet_2007/services/style.rs
index bf6a76e..26fe8df 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/services/style.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/services/style.rs
@@ -257,23 +257,24 @@ impl StylePart {
                                                 current_element.get_attribute()
                                             {
                                                 if let Some(theme) = attributes.get("theme") {
-                                                    font_style.color.color_setting_type =
-                                                        ColorSettingTypeValues::Theme;
-                                                    font_style.color.value = theme
-                                                        .parse()
-                                                        .context("Font color theme parse failed")?
+                                                    font_style.color = Some(ColorSetting {
+                                                        color_setting_type: ColorSettingTypeValues::Theme,
+                                                        value: theme
+                                                            .parse()
+                                                            .context("Font color theme parse failed")?,
+                                                    });
                                                 } else if let Some(rgb) = attributes.get("rgb") {
-                                                    font_style.color.color_setting_type =
-                                                        ColorSettingTypeValues::Rgb;
-                                                    let rgb_string = rgb.to_string();
-                                                    font_style.color.value = rgb_string;
+                                                    font_style.color = Some(ColorSetting {
+                                                        color_setting_type: ColorSettingTypeValues::Rgb,
+                                                        value: rgb.to_string(),
+                                                    });
                                                 } else if let Some(indexed) =
                                                     attributes.get("indexed")
                                                 {
-                                                    font_style.color.color_setting_type =
-                                                        ColorSettingTypeValues::Indexed;
-                                                    let indexed_string = indexed.to_string();
-                                                    font_style.color.value = indexed_string;
+                                                    font_style.color = Some(ColorSetting {
+                                                        color_setting_type: ColorSettingTypeValues::Indexed,
+                                                        value: indexed.to_string(),
+                                                    });
                                                 }
                                             }
                                         }
@@ -291,9 +292,10 @@ impl StylePart {
                                                 current_element.get_attribute()
                                             {
                                                 if let Some(val) = attributes.get("val") {
-                                                    font_style.family = val
-                                                        .parse()
-                                                        .context("Font Size Parse Failed")?
+                                                    font_style.family = Some(
+                                                        val.parse()
+                                                            .context("Font Size Parse Failed")?,
+                                                    )
                                                 }
                                             }
                                         }
@@ -633,7 +635,7 @@ impl StylePart {
                     size.set_attribute_mut(size_attributes)
                         .context("Setting Size Attribute Failing")?;
                     StylePart::add_color_element(
-                        Some(font_style.color.clone()),
+                        font_style.color.clone(),
                         &mut xml_doc_mut,
                         font_id,
                     )?;
@@ -644,14 +646,16 @@ impl StylePart {
                     name_attributes.insert("val".to_string(), font_style.name.clone());
                     name.set_attribute_mut(name_attributes)
                         .context("Setting name Attribute Failing")?;
-                    let family = xml_doc_mut
-                        .append_child_mut("family", Some(&font_id))
-                        .context("Create Name Failed")?;
-                    let mut family_attributes: HashMap<String, String> = HashMap::new();
-                    family_attributes.insert("val".to_string(), font_style.family.to_string());
-                    family
-                        .set_attribute_mut(family_attributes)
-                        .context("Setting family attribute failing")?;
+                    if let Some(font_family) = font_style.family {
+                        let family = xml_doc_mut
+                            .append_child_mut("family", Some(&font_id))
+                            .context("Create Name Failed")?;
+                        let mut family_attributes: HashMap<String, String> = HashMap::new();
+                        family_attributes.insert("val".to_string(), font_family.to_string());
+                        family
+                            .set_attribute_mut(family_attributes)
+                            .context("Setting family attribute failing")?;
+                    }
                     let scheme = xml_doc_mut
                         .append_child_mut("scheme", Some(&font_id))
                         .context("Create scheme Failed")?;
@@ -1147,7 +1151,8 @@ impl StylePart {
                     is_italic: style_setting.is_italic,
                     is_underline: style_setting.is_underline,
                     is_double_underline: style_setting.is_double_underline,
-                    color: style_setting.text_color,
+                    color: Some(style_setting.text_color),
+                    family: Some(2),
                     size: style_setting.font_size.to_string(),
                     ..Default::default()
                 };
-- 
2.43.0


From 53c3301bc0bba7a6f98d6e6c7c16c62282ff8d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:38 +0000
Subject: [PATCH 51/58] fix: keep font properties that are not modelled

---
 .../spreadsheet_2007/models/style.rs          |  4 ++++
 .../spreadsheet_2007/services/style.rs        | 19 ++++++++++++++++---
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/rs/src/spreadsheet/spreadsheet_2007/models/style.rs b/rs/src/spreadsheet/spreadsheet_2007/models/style.rs
index 8ae1e84..2d36640 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/models/style.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/models/style.rs
@@ -1,5 +1,6 @@
 use crate::global_2007::traits::Enum;
 use serde::{Deserialize, Serialize};
+use std::collections::BTreeMap;
 
 #[derive(Debug, Clone, PartialEq, Eq, Hash)]
 pub enum NumberFormatValues {
@@ -457,6 +458,8 @@ pub(crate) struct FontStyle {
     pub(crate) is_double_underline: bool,
     pub(crate) is_italic: bool,
     pub(crate) is_underline: bool,
+    /// Properties kept as they are (tag and attributes)
+    pub(crate) other_properties: Vec<(String, BTreeMap<String, String>)>,
 }
 
 impl Default for FontStyle {
@@ -471,6 +474,7 @@ impl Default for FontStyle {
             is_double_underline: false,
             is_italic: false,
             is_underline: false,
+            other_properties: Vec::new(),
         }
     }
 }
diff --git a/rs/src/spreadsheet/spreadsheet_2007/services/style.rs b/rs/src/spreadsheet/spreadsheet_2007/services/style.rs
index 26fe8df..773aec4 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/services/style.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/services/style.rs
@@ -309,9 +309,15 @@ impl StylePart {
                                                 }
                                             }
                                         }
-                                        _ => {
-                                            return Err(anyhow!("Unknown Font Style Found!"));
-                                        }
+                                        tag => font_style.other_properties.push((
+                                            tag.to_string(),
+                                            current_element
+                                                .get_attribute()
+                                                .into_iter()
+                                                .flatten()
+                                                .map(|(key, value)| (key.clone(), value.clone()))
+                                                .collect(),
+                                        )),
                                     }
                                 } else {
                                     break;
@@ -667,6 +673,13 @@ impl StylePart {
                     scheme
                         .set_attribute_mut(scheme_attributes)
                         .context("Setting scheme attribute failing")?;
+                    for (tag, attributes) in &font_style.other_properties {
+                        xml_doc_mut
+                            .append_child_mut(tag, Some(&font_id))
+                            .context("Adding Font Property Failed")?
+                            .set_attribute_mut(attributes.clone().into_iter().collect())
+                            .context("Setting Font Property Attribute Failed")?;
+                    }
                 }
             }
             // Create Fills Elements
-- 
2.43.0


From e48e5c1d3afdd2283bff33ad29fe9613bc3e7173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:28 +0000
Subject: [PATCH 52/58] fix: a malformed cell reference is refused instead of
 writing to another cell

---
 rs/src/utils/converters.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/rs/src/utils/converters.rs b/rs/src/utils/converters.rs
index b7bef5b..24df4a8 100644
--- a/rs/src/utils/converters.rs
+++ b/rs/src/utils/converters.rs
@@ -66,11 +66,10 @@ impl ConverterUtil {
     }
 
     fn extract_digits(input: &str) -> AnyResult<u32> {
-        input
-            .chars()
-            .filter(|c| c.is_digit(10))
-            .collect::<String>()
-            .parse()
-            .context("Failed to Extract Digits")
+        let digits = input.trim_start_matches(|c: char| c.is_ascii_alphabetic());
+        if !digits.chars().all(|c| c.is_ascii_digit()) {
+            return Err(anyhow!("Failed to Extract Digits"));
+        }
+        digits.parse().context("Failed to Extract Digits")
     }
 }
-- 
2.43.0


From 3ac53df11555a6edbdf9aad10815b39e04d305ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:28 +0000
Subject: [PATCH 53/58] fix: the extent of a sheet whose rows have no cells is
 written as A1

---
 rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
index a4eddde..e967019 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
@@ -313,7 +313,8 @@ impl WorkSheet {
             Ok(())
         }
         if let Some(sheet_data) = self.sheet_data.as_ref() {
-            if let Some(first_item) = sheet_data.first_key_value() {
+            let has_cell = self.dimension.start_col <= self.dimension.end_col;
+            if let Some(first_item) = sheet_data.first_key_value().filter(|_| has_cell) {
                 let mut dimension_attribute = HashMap::new();
                 dimension_attribute.insert(
                     "ref".to_string(),
-- 
2.43.0


From b820cd2c010d7c6f766b26e78ac2df607ccc4979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:05 +0000
Subject: [PATCH 54/58] fix: save and load a worksheet part that lies at the
 package root

---
 .../spreadsheet/spreadsheet_2007/parts/worksheet.rs   | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
index e967019..1045d8e 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
@@ -227,14 +227,15 @@ impl WorkSheet {
         )
         .context("Failed to pull calc chain file name")?;
         let xml_document = Self::get_xml_document(&office_document, &file_path)?;
+        // A part at the package root has no directory
+        let (directory, part_name) = match file_path.rfind("/") {
+            Some(position) => file_path.split_at(position + 1),
+            None => ("", file_path.as_str()),
+        };
         let sheet_relationship_part = Rc::new(RefCell::new(
             RelationsPart::new(
                 office_document.clone(),
-                &format!(
-                    "{}/_rels/{}.rels",
-                    &file_path[..file_path.rfind("/").unwrap()],
-                    file_path.rsplit("/").next().unwrap()
-                ),
+                &format!("{}_rels/{}.rels", directory, part_name),
             )
             .context("Creating Relation ship part for workbook failed.")?,
         ));
-- 
2.43.0


From 5aa35e1db4d4f43e21aeaa073bcf6dedd392548f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:05 +0000
Subject: [PATCH 55/58] fix: report a custom number format id that is out of
 range instead of overflowing

---
 rs/src/spreadsheet/spreadsheet_2007/services/style.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/rs/src/spreadsheet/spreadsheet_2007/services/style.rs b/rs/src/spreadsheet/spreadsheet_2007/services/style.rs
index 773aec4..bbe845b 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/services/style.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/services/style.rs
@@ -1125,7 +1125,8 @@ impl StylePart {
                         .iter()
                         .map(|(_, item)| item.format_id)
                         .fold(163, usize::max)
-                        + 1;
+                        .checked_add(1)
+                        .ok_or(anyhow!("Custom number format ids are exhausted"))?;
                     let number_format = NumberFormat {
                         format_code: custom_format,
                         format_type: NumberFormatValues::Custom,
@@ -1136,12 +1137,14 @@ impl StylePart {
                         .iter()
                         .find(|(_, item)| item.format_code == number_format.format_code)
                     {
-                        cell_style.number_format_id = existing_format.format_id as u16;
+                        cell_style.number_format_id = u16::try_from(existing_format.format_id)
+                            .context("Custom number format id is out of range")?;
                     } else {
+                        cell_style.number_format_id = u16::try_from(next_format_id)
+                            .context("Custom number format id is out of range")?;
                         number_format.hash(&mut hasher);
                         self.number_format_collection
                             .push((hasher.finish(), number_format));
-                        cell_style.number_format_id = next_format_id as u16;
                     }
                 } else {
                     return Err(anyhow!(
-- 
2.43.0


From 232aca5d668b080c0adc24a1c0094926deaaf67d Mon Sep 17 00:00:00 2001
From: a <a@b>
Date: Fri, 20 Nov 2026 04:43:37 +0000
Subject: [PATCH 56/58] fix: report a failed rename or save through the C
 interface with a failure status

---
 rs_ffi/src/document/word.rs            | 2 +-
 rs_ffi/src/presentation/power_point.rs | 2 +-
 rs_ffi/src/spreadsheet/excel.rs        | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/rs_ffi/src/document/word.rs b/rs_ffi/src/document/word.rs
index be1f0a2..bee025f 100644
--- a/rs_ffi/src/document/word.rs
+++ b/rs_ffi/src/document/word.rs
@@ -83,7 +83,7 @@ pub extern "C" fn word_save_as(
         Err(e) => match CString::new(format!("Flat Buffer Parse Error. {}", e)) {
             Result::Ok(str) => {
                 unsafe { *out_error = str.into_raw() };
-                StatusCode::Success as i8
+                StatusCode::IoError as i8
             }
             Err(e) => {
                 eprintln!("Error String send Error. {}", e);
diff --git a/rs_ffi/src/presentation/power_point.rs b/rs_ffi/src/presentation/power_point.rs
index 507b69a..cd2d2a1 100644
--- a/rs_ffi/src/presentation/power_point.rs
+++ b/rs_ffi/src/presentation/power_point.rs
@@ -83,7 +83,7 @@ pub extern "C" fn power_point_save_as(
         Err(e) => match CString::new(format!("Flat Buffer Parse Error. {}", e)) {
             Result::Ok(str) => {
                 unsafe { *out_error = str.into_raw() };
-                StatusCode::Success as i8
+                StatusCode::IoError as i8
             }
             Err(e) => {
                 eprintln!("Error String send Error. {}", e);
diff --git a/rs_ffi/src/spreadsheet/excel.rs b/rs_ffi/src/spreadsheet/excel.rs
index 639f229..a8cffc2 100644
--- a/rs_ffi/src/spreadsheet/excel.rs
+++ b/rs_ffi/src/spreadsheet/excel.rs
@@ -153,7 +153,7 @@ pub extern "C" fn excel_rename_sheet(
         Err(e) => match CString::new(format!("Flat Buffer Parse Error. {}", e)) {
             Result::Ok(str) => {
                 unsafe { *out_error = str.into_raw() };
-                StatusCode::Success as i8
+                StatusCode::IoError as i8
             }
             Err(e) => {
                 eprintln!("Error String send Error. {}", e);
-- 
2.43.0


From cb9bf4192e8db3e4666af37cf49ff10d6ef9db7b Mon Sep 17 00:00:00 2001
From: a <a@b>
Date: Fri, 20 Nov 2026 04:43:37 +0000
Subject: [PATCH 57/58] fix: take italic and underline of a style request from
 their own properties

---
 rs_ffi/src/spreadsheet/excel.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rs_ffi/src/spreadsheet/excel.rs b/rs_ffi/src/spreadsheet/excel.rs
index a8cffc2..5291d5f 100644
--- a/rs_ffi/src/spreadsheet/excel.rs
+++ b/rs_ffi/src/spreadsheet/excel.rs
@@ -285,9 +285,9 @@ pub extern "C" fn get_style_id_mut(
                 // style_setting.text_color = text_color;
             }
             style_setting.is_bold = fbs_style_setting.is_bold();
-            style_setting.is_italic = fbs_style_setting.is_bold();
-            style_setting.is_underline = fbs_style_setting.is_bold();
-            style_setting.is_double_underline = fbs_style_setting.is_bold();
+            style_setting.is_italic = fbs_style_setting.is_italic();
+            style_setting.is_underline = fbs_style_setting.is_underline();
+            style_setting.is_double_underline = fbs_style_setting.is_double_underline();
             // fill
             // xfs
             style_setting.background_color =
-- 
2.43.0


From 925e5f4e355baf3da89c6fa919cc29b6cc6246a0 Mon Sep 17 00:00:00 2001
From: a <a@b>
Date: Fri, 20 Nov 2026 04:45:02 +0000
Subject: [PATCH 58/58] fix: declare buffer sizes of the C interface with the
 width of usize

---
 cs/openxml_office/document/Word.cs           | 6 +++---
 cs/openxml_office/presentation/PowerPoint.cs | 6 +++---
 cs/openxml_office/spreadsheet/Excel.cs       | 6 +++---
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/cs/openxml_office/document/Word.cs b/cs/openxml_office/document/Word.cs
index fb2ef2a..9b3fbe2 100644
--- a/cs/openxml_office/document/Word.cs
+++ b/cs/openxml_office/document/Word.cs
@@ -21,7 +21,7 @@ namespace draviavemal.openxml_office.document_2007
         public static extern sbyte word_create(
             [MarshalAs(UnmanagedType.LPStr)] string optional_string,
             IntPtr buffer,
-            int length,
+            UIntPtr length,
             out IntPtr word,
             out IntPtr error_msg
         );
@@ -54,7 +54,7 @@ namespace draviavemal.openxml_office.document_2007
                 fixed (byte* bufferPtr = buffer)
                 {
                     IntPtr bufferIntPtr = (IntPtr)bufferPtr;
-                    sbyte statusCode = word_create(null, bufferIntPtr, bufferSize, out ffiWord, out IntPtr errorMsg);
+                    sbyte statusCode = word_create(null, bufferIntPtr, (UIntPtr)(uint)bufferSize, out ffiWord, out IntPtr errorMsg);
                     StatusCode.ProcessStatusCode(statusCode, errorMsg);
                 }
             }
@@ -79,7 +79,7 @@ namespace draviavemal.openxml_office.document_2007
                 fixed (byte* bufferPtr = buffer)
                 {
                     IntPtr bufferIntPtr = (IntPtr)bufferPtr;
-                    sbyte statusCode = word_create(fileName, bufferIntPtr, bufferSize, out ffiWord, out IntPtr errorMsg);
+                    sbyte statusCode = word_create(fileName, bufferIntPtr, (UIntPtr)(uint)bufferSize, out ffiWord, out IntPtr errorMsg);
                     StatusCode.ProcessStatusCode(statusCode, errorMsg);
                 }
             }
diff --git a/cs/openxml_office/presentation/PowerPoint.cs b/cs/openxml_office/presentation/PowerPoint.cs
index 3dcc53a..a4067e3 100644
--- a/cs/openxml_office/presentation/PowerPoint.cs
+++ b/cs/openxml_office/presentation/PowerPoint.cs
@@ -21,7 +21,7 @@ namespace draviavemal.openxml_office.presentation_2007
         public static extern sbyte power_point_create(
             [MarshalAs(UnmanagedType.LPStr)] string optional_string,
             IntPtr buffer,
-            int length,
+            UIntPtr length,
             out IntPtr powerPoint,
             out IntPtr error_msg
         );
@@ -54,7 +54,7 @@ namespace draviavemal.openxml_office.presentation_2007
                 fixed (byte* bufferPtr = buffer)
                 {
                     IntPtr bufferIntPtr = (IntPtr)bufferPtr;
-                    sbyte statusCode = power_point_create(null, bufferIntPtr, bufferSize, out ffiPowerPoint, out IntPtr errorMsg);
+                    sbyte statusCode = power_point_create(null, bufferIntPtr, (UIntPtr)(uint)bufferSize, out ffiPowerPoint, out IntPtr errorMsg);
                     StatusCode.ProcessStatusCode(statusCode, errorMsg);
                 }
             }
@@ -79,7 +79,7 @@ namespace draviavemal.openxml_office.presentation_2007
                 fixed (byte* bufferPtr = buffer)
                 {
                     IntPtr bufferIntPtr = (IntPtr)bufferPtr;
-                    sbyte statusCode = power_point_create(fileName, bufferIntPtr, bufferSize, out ffiPowerPoint, out IntPtr errorMsg);
+                    sbyte statusCode = power_point_create(fileName, bufferIntPtr, (UIntPtr)(uint)bufferSize, out ffiPowerPoint, out IntPtr errorMsg);
                     StatusCode.ProcessStatusCode(statusCode, errorMsg);
                 }
             }
diff --git a/cs/openxml_office/spreadsheet/Excel.cs b/cs/openxml_office/spreadsheet/Excel.cs
index 15c354c..9718dff 100644
--- a/cs/openxml_office/spreadsheet/Excel.cs
+++ b/cs/openxml_office/spreadsheet/Excel.cs
@@ -21,7 +21,7 @@ namespace draviavemal.openxml_office.spreadsheet_2007
         public static extern sbyte excel_create(
             [MarshalAs(UnmanagedType.LPStr)] string optional_file_path,
             IntPtr buffer,
-            int length,
+            UIntPtr length,
             out IntPtr excel,
             out IntPtr error_msg
         );
@@ -92,7 +92,7 @@ namespace draviavemal.openxml_office.spreadsheet_2007
                 fixed (byte* bufferPtr = buffer)
                 {
                     IntPtr bufferIntPtr = (IntPtr)bufferPtr;
-                    sbyte statusCode = excel_create(null, bufferIntPtr, bufferSize, out ffiExcel, out IntPtr errorMsg);
+                    sbyte statusCode = excel_create(null, bufferIntPtr, (UIntPtr)(uint)bufferSize, out ffiExcel, out IntPtr errorMsg);
                     StatusCode.ProcessStatusCode(statusCode, errorMsg);
                 }
             }
@@ -122,7 +122,7 @@ namespace draviavemal.openxml_office.spreadsheet_2007
                 fixed (byte* bufferPtr = buffer)
                 {
                     IntPtr bufferIntPtr = (IntPtr)bufferPtr;
-                    sbyte statusCode = excel_create(fileName, bufferIntPtr, bufferSize, out ffiExcel, out IntPtr errorMsg);
+                    sbyte statusCode = excel_create(fileName, bufferIntPtr, (UIntPtr)(uint)bufferSize, out ffiExcel, out IntPtr errorMsg);
                     StatusCode.ProcessStatusCode(statusCode, errorMsg);
                 }
             }
-- 
2.43.0

