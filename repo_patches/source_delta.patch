From 6594ae4feab447a588d1d2b38b75ca761b22db20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:29 +0000
Subject: [PATCH 001/117] fix: don't store nan/inf formula results as numbers

The cell value of a formula result like "nan" or "inf" parses as a Rust float
but isn't a valid number in the file format.
---
 src/worksheet.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 56fdda5..ada05c5 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -19125,7 +19125,7 @@ impl Worksheet {
         };
 
         // Get the result type attribute.
-        let result_type = if result.parse::<f64>().is_err() {
+        let result_type = if !result.parse::<f64>().is_ok_and(f64::is_finite) {
             match result {
                 // Handle error results.
                 "#DIV/0!" | "#N/A" | "#NAME?" | "#NULL!" | "#NUM!" | "#REF!" | "#VALUE!"
@@ -19180,7 +19180,7 @@ impl Worksheet {
         let cm = if is_dynamic { r#" cm="1""# } else { "" };
 
         // Get the result type attribute.
-        let result_type = if result.parse::<f64>().is_err() {
+        let result_type = if !result.parse::<f64>().is_ok_and(f64::is_finite) {
             match result {
                 // Handle error results.
                 "#DIV/0!" | "#N/A" | "#NAME?" | "#NULL!" | "#NUM!" | "#REF!" | "#VALUE!"
-- 
2.43.0


From 0395f95bd33a8b72c6e78f5c99d5405df8c3f0f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:29 +0000
Subject: [PATCH 002/117] fix: escape _xHHHH_ sequences in rich strings

Literal text such as "_x000D_" was decoded to a control character by readers.
It is already escaped for plain shared and inline strings.
---
 src/worksheet.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index ada05c5..9a2a1e8 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -15484,12 +15484,14 @@ impl Worksheet {
             // First segment doesn't require a font run for the default format.
             if format.is_default() && first_segment {
                 xml_start_tag_only(&mut styler.writer, "r");
-                xml_data_element(&mut styler.writer, "t", string, &attributes);
+                let string = xmlwriter::escape_xml_escapes(string);
+                xml_data_element(&mut styler.writer, "t", &string, &attributes);
                 xml_end_tag(&mut styler.writer, "r");
             } else {
                 xml_start_tag_only(&mut styler.writer, "r");
                 styler.write_font(&format.font, false);
-                xml_data_element(&mut styler.writer, "t", string, &attributes);
+                let string = xmlwriter::escape_xml_escapes(string);
+                xml_data_element(&mut styler.writer, "t", &string, &attributes);
                 xml_end_tag(&mut styler.writer, "r");
             }
             first_segment = false;
-- 
2.43.0


From 06f99fe2283e0cc5948c897a15b39e6ceca531d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:29 +0000
Subject: [PATCH 003/117] fix: keep the cell format of formulas with dynamic
 functions

---
 src/worksheet.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 9a2a1e8..06f9a92 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -15168,7 +15168,7 @@ impl Worksheet {
     ) -> Result<&mut Worksheet, XlsxError> {
         // Transfer to dynamic formula handling function.
         if formula.has_dynamic_function {
-            return self.store_array_formula(row, col, row, col, formula, None, true);
+            return self.store_array_formula(row, col, row, col, formula, format, true);
         }
 
         // Check row and col are in the allowed range.
-- 
2.43.0


From a780a11a4d0f37cb791fbe0886fa4d9cb5fca64f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:42 +0000
Subject: [PATCH 004/117] fix: use the current row/column format for row and
 column intersections

The format stored for merging row and column formats wasn't set, or updated,
when the row or column already had properties.
---
 src/worksheet.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 06f9a92..ee4753d 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -6591,7 +6591,10 @@ impl Worksheet {
 
         // Update an existing row metadata object or create a new one.
         match self.changed_rows.get_mut(&row) {
-            Some(row_options) => row_options.xf_index = xf_index,
+            Some(row_options) => {
+                row_options.xf_index = xf_index;
+                row_options.format = Some(format.clone());
+            }
             None => {
                 let row_options = RowOptions {
                     height: self.user_default_row_height,
@@ -8054,7 +8057,10 @@ impl Worksheet {
 
         // Update an existing col metadata object or create a new one.
         match self.changed_cols.get_mut(&col) {
-            Some(col_options) => col_options.xf_index = xf_index,
+            Some(col_options) => {
+                col_options.xf_index = xf_index;
+                col_options.format = Some(format.clone());
+            }
             None => {
                 let col_options = ColOptions {
                     width: DEFAULT_COL_WIDTH,
-- 
2.43.0


From 2194cd33b81ae18ef04bc4f9fd6a72890f008688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:26 +0000
Subject: [PATCH 005/117] fix: don't write or register cells of a rejected
 merge_range()

An overlapping range overwrote cells and left entries pointing at a range that
was never stored, which caused a later call to panic.
---
 src/worksheet.rs | 38 ++++++++++++++++++++------------------
 1 file changed, 20 insertions(+), 18 deletions(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index ee4753d..605213c 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -4988,6 +4988,24 @@ impl Worksheet {
             return Err(XlsxError::MergeRangeSingleCell);
         }
 
+        // Create a cell range for storage and range testing.
+        let cell_range = CellRange::new(first_row, first_col, last_row, last_col);
+
+        // Check if the merged range overlaps any previous merged range. This is
+        // a major error in Excel. Note, the ranges are stored in a separate Vec
+        // to the cells to cut down on storage size.
+        for row in first_row..=last_row {
+            for col in first_col..=last_col {
+                if let Some(index) = self.merged_cells.get(&(row, col)) {
+                    let previous_cell_range = &self.merged_ranges[*index];
+                    return Err(XlsxError::MergeRangeOverlaps(
+                        cell_range.to_error_string(),
+                        previous_cell_range.to_error_string(),
+                    ));
+                }
+            }
+        }
+
         // Write the first cell in the range.
         self.write_string_with_format(first_row, first_col, string, format)?;
 
@@ -5006,29 +5024,13 @@ impl Worksheet {
         }
         self.set_writing_ahead(false);
 
-        // Create a cell range for storage and range testing.
-        let cell_range = CellRange::new(first_row, first_col, last_row, last_col);
-
-        // Check if the merged range overlaps any previous merged range. This is
-        // a major error in Excel. Note, the ranges are stored in a separate Vec
-        // to the cells to cut down on storage size.
+        // Store the merge range if everything was okay.
         let new_index = self.merged_ranges.len();
         for row in first_row..=last_row {
             for col in first_col..=last_col {
-                match self.merged_cells.get_mut(&(row, col)) {
-                    Some(index) => {
-                        let previous_cell_range = self.merged_ranges.get(*index).unwrap();
-                        return Err(XlsxError::MergeRangeOverlaps(
-                            cell_range.to_error_string(),
-                            previous_cell_range.to_error_string(),
-                        ));
-                    }
-                    None => self.merged_cells.insert((row, col), new_index),
-                };
+                self.merged_cells.insert((row, col), new_index);
             }
         }
-
-        // Store the merge range if everything was okay.
         self.merged_ranges.push(cell_range);
 
         Ok(self)
-- 
2.43.0


From f606c825d245a98216b5f3c92992acca0498b489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:26 +0000
Subject: [PATCH 006/117] fix: leave rows and columns unchanged by a rejected
 collapsed group

Also avoids an integer overflow for the last possible row/column values.
---
 src/worksheet.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 605213c..84dd129 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -6993,10 +6993,14 @@ impl Worksheet {
         first_row: RowNum,
         last_row: RowNum,
     ) -> Result<&mut Worksheet, XlsxError> {
-        // Set the collapsed property to the row after the collapsed group.
-        self.set_collapsed_row(last_row + 1)?;
+        if last_row >= ROW_MAX - 1 {
+            return Err(XlsxError::RowColumnLimitError);
+        }
 
-        self.set_grouped_rows(first_row, last_row, true)
+        self.set_grouped_rows(first_row, last_row, true)?;
+
+        // Set the collapsed property to the row after the collapsed group.
+        self.set_collapsed_row(last_row + 1)
     }
 
     /// Group a range of columns into a worksheet outline group.
@@ -7367,10 +7371,14 @@ impl Worksheet {
         first_col: ColNum,
         last_col: ColNum,
     ) -> Result<&mut Worksheet, XlsxError> {
-        // Set the collapsed property to the column after the collapsed group.
-        self.set_collapsed_column(last_col + 1)?;
+        if last_col >= COL_MAX - 1 {
+            return Err(XlsxError::RowColumnLimitError);
+        }
 
-        self.set_grouped_columns(first_col, last_col, true)
+        self.set_grouped_columns(first_col, last_col, true)?;
+
+        // Set the collapsed property to the column after the collapsed group.
+        self.set_collapsed_column(last_col + 1)
     }
 
     /// Place the row outline group expand/collapse symbols above the range.
-- 
2.43.0


From 02e2e796e7a9bfb087edc84987d8e43419b4db8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:26 +0000
Subject: [PATCH 007/117] fix: leave rows and columns unchanged if the outline
 level is exceeded

---
 src/worksheet.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 84dd129..aec9ae6 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -17155,6 +17155,13 @@ impl Worksheet {
             return Err(XlsxError::RowColumnOrderError);
         }
 
+        // Check that none of the rows would exceed the maximum outline level.
+        for row in first_row..=last_row {
+            if self.changed_rows.get(&row).is_some_and(|r| r.level >= 7) {
+                return Err(XlsxError::MaxGroupLevelExceeded);
+            }
+        }
+
         // Write group outline for each row.
         for row in first_row..=last_row {
             self.set_grouped_row(row, collapsed)?;
@@ -17253,6 +17260,13 @@ impl Worksheet {
             return Err(XlsxError::RowColumnOrderError);
         }
 
+        // Check that none of the columns would exceed the maximum outline level.
+        for col in first_col..=last_col {
+            if self.changed_cols.get(&col).is_some_and(|c| c.level >= 7) {
+                return Err(XlsxError::MaxGroupLevelExceeded);
+            }
+        }
+
         // Write group outline for each column.
         for col in first_col..=last_col {
             self.set_grouped_column(col, collapsed)?;
-- 
2.43.0


From 1752ea58d24fb654ae06919ff4f04c0fd1681789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:26 +0000
Subject: [PATCH 008/117] fix: include set_range_format() cells in the
 worksheet dimensions

Cells outside the range of previously written data were silently dropped.
---
 src/worksheet.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index aec9ae6..eeaf9bc 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -10355,8 +10355,8 @@ impl Worksheet {
         format: &Format,
     ) -> Result<&mut Worksheet, XlsxError> {
         // Check rows and cols are in the allowed range.
-        if !self.check_dimensions_only(first_row, first_col)
-            || !self.check_dimensions_only(last_row, last_col)
+        if !self.check_dimensions(first_row, first_col)
+            || !self.check_dimensions(last_row, last_col)
         {
             return Err(XlsxError::RowColumnLimitError);
         }
-- 
2.43.0


From cee49344df2e1709a750692d192705055a5d1506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:26 +0000
Subject: [PATCH 009/117] fix: leave the worksheet unchanged by a rejected
 autofilter()

Also drop the cells of a previous autofilter when it is replaced, since tables
were rejected for overlapping them.
---
 src/worksheet.rs | 33 +++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index eeaf9bc..2c0b9ab 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -8446,6 +8446,25 @@ impl Worksheet {
             return Err(XlsxError::RowColumnOrderError);
         }
 
+        let autofilter_area = CellRange::new(first_row, first_col, last_row, last_col);
+
+        // Check that the worksheet autofilter doesn't overlap a table
+        // autofilter.
+        for col in first_col..=last_col {
+            if let Some((FilterType::Table, filter_range)) =
+                self.cells_with_autofilter.get(&(first_row, col))
+            {
+                return Err(XlsxError::AutofilterRangeOverlaps(
+                    autofilter_area.to_error_string(),
+                    filter_range.to_error_string(),
+                ));
+            }
+        }
+
+        // Remove the cells of any previous worksheet autofilter.
+        self.cells_with_autofilter
+            .retain(|_, (filter_type, _)| *filter_type == FilterType::Table);
+
         // Store the defined name information.
         self.autofilter_defined_name.in_use = true;
         self.autofilter_defined_name.name_type = DefinedNameType::Autofilter;
@@ -8454,25 +8473,11 @@ impl Worksheet {
         self.autofilter_defined_name.last_row = last_row;
         self.autofilter_defined_name.last_col = last_col;
 
-        let autofilter_area = CellRange::new(first_row, first_col, last_row, last_col);
-
         // Clear any previous filters.
         self.filter_conditions = BTreeMap::new();
 
         // Store the cells with the autofilter dropdown for the autofit calc.
         for col in first_col..=last_col {
-            // Check that the worksheet autofilter doesn't overlap a table
-            // autofilter.
-            let filter_data = self.cells_with_autofilter.get(&(first_row, col));
-            if let Some((filter_type, filter_range)) = filter_data {
-                if *filter_type == FilterType::Table {
-                    return Err(XlsxError::AutofilterRangeOverlaps(
-                        autofilter_area.to_error_string(),
-                        filter_range.to_error_string(),
-                    ));
-                }
-            }
-
             self.cells_with_autofilter.insert(
                 (first_row, col),
                 (FilterType::Worksheet, autofilter_area.clone()),
-- 
2.43.0


From b276c6c6791679842693bdad7761d540e1f5447b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:47 +0000
Subject: [PATCH 010/117] fix: include the first outline level in the worksheet
 outline levels

Grouping rows or columns without other properties didn't set the outline level
attributes of sheetFormatPr.
---
 src/worksheet.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 2c0b9ab..f780512 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -17202,6 +17202,8 @@ impl Worksheet {
                 }
             }
             None => {
+                self.max_outline_row_level = std::cmp::max(1, self.max_outline_row_level);
+
                 let row_options = RowOptions {
                     height: self.user_default_row_height,
                     xf_index: 0,
@@ -17307,6 +17309,8 @@ impl Worksheet {
                 }
             }
             None => {
+                self.max_outline_col_level = std::cmp::max(1, self.max_outline_col_level);
+
                 let col_options = ColOptions {
                     width: DEFAULT_COL_WIDTH,
                     xf_index: 0,
-- 
2.43.0


From 017f07769319681a86a7bef847205a66dbde16a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:00 +0000
Subject: [PATCH 011/117] fix: rebuild the shared string table on each save

---
 src/shared_strings_table.rs | 34 +++++++++++++++++++++++++++++++++-
 src/workbook.rs             |  1 +
 src/worksheet.rs            |  5 +----
 3 files changed, 35 insertions(+), 5 deletions(-)

diff --git a/src/shared_strings_table.rs b/src/shared_strings_table.rs
index 0a23358..25d4e82 100644
--- a/src/shared_strings_table.rs
+++ b/src/shared_strings_table.rs
@@ -18,6 +18,8 @@ use std::{collections::HashMap, sync::Arc};
 pub struct SharedStringsTable {
     pub count: u32,
     pub unique_count: u32,
+    pub local_count: u32,
+    pub preset_strings: Vec<(Arc<str>, u32)>,
     pub strings: HashMap<Arc<str>, u32>,
 }
 
@@ -31,6 +33,8 @@ impl SharedStringsTable {
         SharedStringsTable {
             count: 0,
             unique_count: 0,
+            local_count: 0,
+            preset_strings: vec![],
             strings: HashMap::new(),
         }
     }
@@ -46,11 +50,39 @@ impl SharedStringsTable {
         index
     }
 
+    // Get the index of a string that is only added to the table when the
+    // workbook is saved.
+    pub(crate) fn local_string_index(&mut self, key: Arc<str>) -> u32 {
+        self.local_count += 1;
+        self.shared_string_index(key)
+    }
+
+    // Discard the strings that were added by a previous save. The indices of
+    // strings that were added when they were written must be kept.
+    pub(crate) fn reset_local_strings(&mut self) {
+        if self.local_count == 0 {
+            return;
+        }
+
+        self.count -= self.local_count;
+        self.local_count = 0;
+
+        if self.count == 0 {
+            self.unique_count = 0;
+            self.strings.clear();
+
+            for (key, index) in std::mem::take(&mut self.preset_strings) {
+                self.populate_string_index(key, index);
+            }
+        }
+    }
+
     // Add a string to the Shared String table to get a consistent ordering with
     // files generated by Excel, when testing. This doesn't increment the count.
     pub(crate) fn populate_string_index(&mut self, key: Arc<str>, index: u32) {
-        self.strings.entry(key).or_insert_with(|| {
+        self.strings.entry(Arc::clone(&key)).or_insert_with(|| {
             self.unique_count += 1;
+            self.preset_strings.push((key, index));
             index
         });
     }
diff --git a/src/workbook.rs b/src/workbook.rs
index 3d40929..50a897c 100644
--- a/src/workbook.rs
+++ b/src/workbook.rs
@@ -2183,6 +2183,7 @@ impl Workbook {
         self.prepare_tables()?;
 
         // Update the shared string table in each worksheet.
+        self.string_table.lock().unwrap().reset_local_strings();
         for worksheet in &mut self.worksheets {
             if !worksheet.has_workbook_global_sst {
                 let string_table = self.string_table.clone();
diff --git a/src/worksheet.rs b/src/worksheet.rs
index f780512..4860e98 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -18450,10 +18450,7 @@ impl Worksheet {
                     | CellType::RichString {
                         string, string_id, ..
                     } => {
-                        if string_id.is_none() {
-                            let string_index = string_table.shared_string_index(Arc::clone(string));
-                            *string_id = Some(string_index);
-                        }
+                        *string_id = Some(string_table.local_string_index(Arc::clone(string)));
                     }
                     _ => {}
                 }
-- 
2.43.0


From b4a86ee6d9df821ec1cfc4ba7dc318e44eefb90d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:21 +0000
Subject: [PATCH 012/117] fix: don't treat plain strings that look like rich
 strings as XML

---
 src/shared_strings.rs       | 10 ++++++----
 src/shared_strings_table.rs | 22 ++++++++++++++++++++++
 src/worksheet.rs            |  8 +++++---
 3 files changed, 33 insertions(+), 7 deletions(-)

diff --git a/src/shared_strings.rs b/src/shared_strings.rs
index a05b29c..9816210 100644
--- a/src/shared_strings.rs
+++ b/src/shared_strings.rs
@@ -66,16 +66,18 @@ impl SharedStrings {
     fn write_sst_strings(&mut self, string_table: &Arc<Mutex<SharedStringsTable>>) {
         let string_table = string_table.lock().unwrap();
 
-        let mut insertion_order_strings = Vec::from_iter(string_table.strings.iter());
+        let plain_strings = string_table.strings.iter().map(|x| (x.0, x.1, false));
+        let rich_strings = string_table.rich_strings.iter().map(|x| (x.0, x.1, true));
+
+        let mut insertion_order_strings = Vec::from_iter(plain_strings.chain(rich_strings));
         insertion_order_strings.sort_by_key(|x| x.1);
         let whitespace = ['\t', '\n', ' '];
 
-        for (string, _) in insertion_order_strings {
+        for (string, _, is_rich_string) in insertion_order_strings {
             let preserve_whitespace =
                 string.starts_with(whitespace) || string.ends_with(whitespace);
 
-            // Check if the string is a rich text element.
-            if string.starts_with("<r>") && string.ends_with("</r>") {
+            if is_rich_string {
                 xml_rich_si_element(&mut self.writer, string);
             } else {
                 xml_si_element(&mut self.writer, string, preserve_whitespace);
diff --git a/src/shared_strings_table.rs b/src/shared_strings_table.rs
index 25d4e82..4b86bb9 100644
--- a/src/shared_strings_table.rs
+++ b/src/shared_strings_table.rs
@@ -21,6 +21,7 @@ pub struct SharedStringsTable {
     pub local_count: u32,
     pub preset_strings: Vec<(Arc<str>, u32)>,
     pub strings: HashMap<Arc<str>, u32>,
+    pub rich_strings: HashMap<Arc<str>, u32>,
 }
 
 impl SharedStringsTable {
@@ -36,6 +37,7 @@ impl SharedStringsTable {
             local_count: 0,
             preset_strings: vec![],
             strings: HashMap::new(),
+            rich_strings: HashMap::new(),
         }
     }
 
@@ -50,6 +52,18 @@ impl SharedStringsTable {
         index
     }
 
+    // Get the index of the XML of a rich string in the Shared String table. These
+    // are stored separately since a plain string can contain the same text.
+    pub(crate) fn shared_rich_string_index(&mut self, key: Arc<str>) -> u32 {
+        let index = *self.rich_strings.entry(key).or_insert_with(|| {
+            let index = self.unique_count;
+            self.unique_count += 1;
+            index
+        });
+        self.count += 1;
+        index
+    }
+
     // Get the index of a string that is only added to the table when the
     // workbook is saved.
     pub(crate) fn local_string_index(&mut self, key: Arc<str>) -> u32 {
@@ -57,6 +71,13 @@ impl SharedStringsTable {
         self.shared_string_index(key)
     }
 
+    // Get the index of a rich string that is only added to the table when the
+    // workbook is saved.
+    pub(crate) fn local_rich_string_index(&mut self, key: Arc<str>) -> u32 {
+        self.local_count += 1;
+        self.shared_rich_string_index(key)
+    }
+
     // Discard the strings that were added by a previous save. The indices of
     // strings that were added when they were written must be kept.
     pub(crate) fn reset_local_strings(&mut self) {
@@ -70,6 +91,7 @@ impl SharedStringsTable {
         if self.count == 0 {
             self.unique_count = 0;
             self.strings.clear();
+            self.rich_strings.clear();
 
             for (key, index) in std::mem::take(&mut self.preset_strings) {
                 self.populate_string_index(key, index);
diff --git a/src/worksheet.rs b/src/worksheet.rs
index 4860e98..9d7f41b 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -15160,7 +15160,7 @@ impl Worksheet {
 
         if self.has_workbook_global_sst {
             let mut string_table = self.string_table.lock().unwrap();
-            string_id = Some(string_table.shared_string_index(Arc::clone(&string)));
+            string_id = Some(string_table.shared_rich_string_index(Arc::clone(&string)));
         }
 
         let cell = CellType::RichString {
@@ -18446,11 +18446,13 @@ impl Worksheet {
                 match cell {
                     CellType::String {
                         string, string_id, ..
+                    } => {
+                        *string_id = Some(string_table.local_string_index(Arc::clone(string)));
                     }
-                    | CellType::RichString {
+                    CellType::RichString {
                         string, string_id, ..
                     } => {
-                        *string_id = Some(string_table.local_string_index(Arc::clone(string)));
+                        *string_id = Some(string_table.local_rich_string_index(Arc::clone(string)));
                     }
                     _ => {}
                 }
-- 
2.43.0


From f6169c9f286003412d8d57e14c708d6a0c37c1fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:21 +0000
Subject: [PATCH 013/117] fix: check the length of a rich string without its
 markup

---
 src/worksheet.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 9d7f41b..fa2cc60 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -15143,7 +15143,7 @@ impl Worksheet {
         }
 
         //  Check that the string is < Excel limit of 32767 chars.
-        if string.chars().count() > MAX_STRING_LEN {
+        if raw_string.chars().count() > MAX_STRING_LEN {
             return Err(XlsxError::MaxStringLengthExceeded);
         }
 
-- 
2.43.0


From b81cb6bfc8040427003a684681a1499100c0d0d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:44 +0000
Subject: [PATCH 014/117] fix: flush each remaining constant memory row once

---
 src/worksheet.rs | 42 ++++++++++++++----------------------------
 1 file changed, 14 insertions(+), 28 deletions(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index fa2cc60..9e5b654 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -18624,36 +18624,22 @@ impl Worksheet {
     // modified rows.
     #[cfg(feature = "constant_memory")]
     pub(crate) fn flush_last_row(&mut self) {
-        // First find any write ahead cached rows.
-        let mut remaining_rows: Vec<_> = self.write_ahead.keys().copied().collect();
-
-        // Add any changed row elements.
-        let max_changed_row = self.changed_rows.keys().max().unwrap_or(&0);
-        if *max_changed_row > self.current_row {
-            for row_num in self.current_row..=*max_changed_row {
-                if self.changed_rows.contains_key(&row_num) {
-                    remaining_rows.push(row_num);
-                }
-            }
-        }
-
-        // Add the current row.
-        remaining_rows.push(self.current_row);
-
-        // Remove any duplicate rows.
-        remaining_rows.sort_unstable();
-        remaining_rows.dedup();
+        // Find the last row that has write-ahead data or row properties.
+        let last_write_ahead = self.write_ahead.keys().max();
+        let last_changed_row = self
+            .changed_rows
+            .keys()
+            .filter(|row| **row >= self.current_row)
+            .max();
+        let last_data_row = self.data_table.keys().max();
 
-        // If there is data to write (and not just write-ahead or rows) we move
-        // the final row ahead by one. This will start any subsequent write() on
-        // the next row, after a resave.
-        if self.data_table.contains_key(&self.current_row) {
-            remaining_rows.push(1 + *remaining_rows.last().unwrap());
-        }
+        let last_row = last_write_ahead.max(last_changed_row).max(last_data_row);
 
-        // Flush all the remaining rows.
-        for remaining_row in remaining_rows {
-            self.flush_data_row(remaining_row);
+        // Flush all the remaining rows. This also moves the current row ahead
+        // by one so that any subsequent write() starts on the next row, after a
+        // resave.
+        if let Some(last_row) = last_row {
+            self.flush_to_row(*last_row + 1);
         }
     }
 
-- 
2.43.0


From d708d4cb90f7e64e33ba185c518710c1049a5f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:44 +0000
Subject: [PATCH 015/117] fix: write row outline levels in constant memory mode

---
 src/worksheet.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 9e5b654..d8eff86 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -19011,6 +19011,14 @@ impl Worksheet {
             {
                 attributes.push(("customHeight", "1".to_string()));
             }
+
+            if row_options.level > 0 {
+                attributes.push(("outlineLevel", row_options.level.to_string()));
+            }
+
+            if row_options.collapsed {
+                attributes.push(("collapsed", "1".to_string()));
+            }
         } else if self.user_default_row_height != DEFAULT_ROW_HEIGHT {
             attributes.push(("ht", self.user_default_row_height.to_string()));
             attributes.push(("customHeight", "1".to_string()));
-- 
2.43.0


From 144967ccdfa42d974f963342b35d664f40557bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:44 +0000
Subject: [PATCH 016/117] fix: don't add links to ignored cells in constant
 memory mode

---
 src/worksheet.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index d8eff86..39f6dd1 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -15384,7 +15384,10 @@ impl Worksheet {
             }
         };
 
-        self.hyperlinks.insert((row, col), hyperlink);
+        // Ignore links in rows that were already written in constant memory mode.
+        if !self.use_constant_memory || row >= self.current_row {
+            self.hyperlinks.insert((row, col), hyperlink);
+        }
 
         Ok(self)
     }
-- 
2.43.0


From 3a40e2173de656db895562fa01373db2441ecc41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:44 +0000
Subject: [PATCH 017/117] fix: keep cell formats set ahead of the current
 constant memory row

---
 src/worksheet.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 39f6dd1..7b7655c 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -15585,6 +15585,18 @@ impl Worksheet {
     // Insert a cell format value into the worksheet data table structure. This
     // function creates a new blank cell if no other cell value exists.
     fn insert_cell_format(&mut self, row: RowNum, col: ColNum, format_id: u32) {
+        // Move to the row of the cell, if required, in constant memory mode.
+        #[cfg(feature = "constant_memory")]
+        if self.use_constant_memory {
+            if row < self.current_row {
+                return;
+            }
+
+            if row > self.current_row {
+                self.flush_to_row(row);
+            }
+        }
+
         match self.data_table.entry(row) {
             Entry::Occupied(mut entry) => {
                 // The row already exists.
@@ -18980,6 +18992,8 @@ impl Worksheet {
         row_options: Option<&RowOptions>,
         has_data: bool,
     ) {
+        self.has_sheet_data = true;
+
         let row_num = (row_num + 1).to_string();
         let mut attributes = vec![("r", row_num)];
 
-- 
2.43.0


From 11ca5eb3a377f0a77b016f11f66862f9f023647d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:06 +0000
Subject: [PATCH 018/117] fix: escape all the characters that aren't allowed in
 XML

---
 src/xmlwriter.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/xmlwriter.rs b/src/xmlwriter.rs
index 945d96e..4fc8e55 100644
--- a/src/xmlwriter.rs
+++ b/src/xmlwriter.rs
@@ -168,6 +168,13 @@ fn match_attribute_html_char(ch: char) -> Option<&'static str> {
         '<' => Some("&lt;"),
         '>' => Some("&gt;"),
         '\n' => Some("&#xA;"),
+
+        // Tabs and carriage returns would be normalized to spaces.
+        '\t' => Some("&#x9;"),
+        '\r' => Some("&#xD;"),
+
+        // Other characters that aren't allowed in XML are escaped like in data.
+        '\x00'..='\x1F' | '\u{FFFE}' | '\u{FFFF}' => match_xml_char(ch),
         _ => None,
     }
 }
@@ -221,6 +228,10 @@ fn match_xml_char(ch: char) -> Option<&'static str> {
         '\x1E' => Some("_x001E_"),
         '\x1F' => Some("_x001F_"),
 
+        // Noncharacters that aren't allowed in XML.
+        '\u{FFFE}' => Some("_xFFFE_"),
+        '\u{FFFF}' => Some("_xFFFF_"),
+
         _ => None,
     }
 }
-- 
2.43.0


From df4e217dcad16d4e974da927be8eae3aea5a11b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:33 +0000
Subject: [PATCH 019/117] fix: the first visible tab cannot be hidden

---
 src/worksheet.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 7b7655c..b811b83 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -12501,7 +12501,7 @@ impl Worksheet {
         self.first_sheet = enable;
 
         // First visible worksheet cannot be hidden.
-        if self.selected {
+        if self.first_sheet {
             self.visible = Visible::Default;
         }
         self
-- 
2.43.0


From 249255c3cf1a2ddc96ec5879be39925aa38ef99f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:33 +0000
Subject: [PATCH 020/117] fix: setting the print area to the whole sheet
 removes a previous one

---
 src/worksheet.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index b811b83..e12d8d9 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -14081,6 +14081,7 @@ impl Worksheet {
         // The print range is the entire worksheet, therefore it is the same
         // as the default, so we can ignore it.
         if first_row == 0 && first_col == 0 && last_row == ROW_MAX - 1 && last_col == COL_MAX - 1 {
+            self.print_area_defined_name.in_use = false;
             return Ok(self);
         }
 
-- 
2.43.0


From f012a0338b57d72bf74f1e35ccc2194bf6d44b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:33 +0000
Subject: [PATCH 021/117] fix: forget the first tab of a previous save

---
 src/workbook.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/workbook.rs b/src/workbook.rs
index 50a897c..c96b11b 100644
--- a/src/workbook.rs
+++ b/src/workbook.rs
@@ -2206,6 +2206,7 @@ impl Workbook {
     // sheet. If none has been set, then defaults to the first sheet, like Excel.
     fn set_active_worksheets(&mut self) {
         let mut active_index = 0;
+        self.first_sheet = 0;
 
         for (i, worksheet) in self.worksheets.iter().enumerate() {
             if worksheet.active {
-- 
2.43.0


From 490a6fc35ca8a8cd974ecfd00e36fe093baeb00f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:33 +0000
Subject: [PATCH 022/117] fix: don't keep the default active worksheet after a
 save

---
 src/workbook.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/workbook.rs b/src/workbook.rs
index c96b11b..8be26e1 100644
--- a/src/workbook.rs
+++ b/src/workbook.rs
@@ -2034,6 +2034,25 @@ impl Workbook {
     #[allow(clippy::similar_names)]
     #[allow(clippy::too_many_lines)]
     fn save_internal<W: Write + Seek + Send>(&mut self, writer: W) -> Result<(), XlsxError> {
+        // The worksheet that is activated by default, for this save only, keeps
+        // its own state.
+        let states: Vec<_> = self
+            .worksheets
+            .iter()
+            .map(|worksheet| (worksheet.active, worksheet.selected, worksheet.visible))
+            .collect();
+
+        let result = self.assemble_and_save(writer);
+
+        for (worksheet, state) in self.worksheets.iter_mut().zip(states) {
+            (worksheet.active, worksheet.selected, worksheet.visible) = state;
+        }
+
+        result
+    }
+
+    // Assemble the parts of the workbook and write them to the xlsx file.
+    fn assemble_and_save<W: Write + Seek + Send>(&mut self, writer: W) -> Result<(), XlsxError> {
         // Reset workbook and worksheet state data between saves.
         self.reset();
 
-- 
2.43.0


From 4ac4e1da2b4a48222dc2f8b7769172d04bf53f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:34 +0000
Subject: [PATCH 023/117] fix: allow worksheet names with an exclamation mark
 in local defined names

---
 src/workbook.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/workbook.rs b/src/workbook.rs
index 8be26e1..de12a97 100644
--- a/src/workbook.rs
+++ b/src/workbook.rs
@@ -1538,7 +1538,7 @@ impl Workbook {
         let name = name.into();
 
         // Match Global/Workbook or Local/Worksheet defined names.
-        match name.find('!') {
+        match name.rfind('!') {
             Some(position) => {
                 defined_name.quoted_sheet_name = name[0..position].to_string();
                 defined_name.name = name[position + 1..].to_string();
-- 
2.43.0


From aa9ec5a127e3adee7193f3b3fb0e2473e142807f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:34 +0000
Subject: [PATCH 024/117] fix: reject blank defined names instead of panicking

---
 src/workbook.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/workbook.rs b/src/workbook.rs
index de12a97..53599c6 100644
--- a/src/workbook.rs
+++ b/src/workbook.rs
@@ -1552,7 +1552,7 @@ impl Workbook {
 
         // Excel requires that the name starts with a letter or underscore.
         // Also, backspace is allowed but undocumented by Excel.
-        if !defined_name.name.chars().next().unwrap().is_alphabetic()
+        if !defined_name.name.starts_with(char::is_alphabetic)
             && !defined_name.name.starts_with('_')
             && !defined_name.name.starts_with('\\')
         {
-- 
2.43.0


From b640a83ed7175b4eed50721ee89f1acb2b452bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:34 +0000
Subject: [PATCH 025/117] fix: don't panic on an unbalanced quote in a defined
 name

---
 src/utility.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utility.rs b/src/utility.rs
index 4796619..88e12f2 100644
--- a/src/utility.rs
+++ b/src/utility.rs
@@ -731,7 +731,7 @@ pub fn quote_sheet_name(sheetname: &str) -> String {
 
 // Unquote an Excel single quoted string.
 pub(crate) fn unquote_sheetname(sheetname: &str) -> String {
-    if sheetname.starts_with('\'') && sheetname.ends_with('\'') {
+    if sheetname.len() > 1 && sheetname.starts_with('\'') && sheetname.ends_with('\'') {
         let sheetname = sheetname[1..sheetname.len() - 1].to_string();
         sheetname.replace("''", "'")
     } else {
-- 
2.43.0


From 1ace2750c1b1ab3209d8c9d1bdc211a18c59e2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:14 +0000
Subject: [PATCH 026/117] fix: store the first page number

---
 src/worksheet.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index e12d8d9..49b315a 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -18314,6 +18314,10 @@ impl Worksheet {
             attributes.push(("scale", self.print_scale.to_string()));
         }
 
+        if self.first_page_number > 1 {
+            attributes.push(("firstPageNumber", self.first_page_number.to_string()));
+        }
+
         if self.fit_to_page {
             if self.fit_width != 1 {
                 attributes.push(("fitToWidth", self.fit_width.to_string()));
@@ -18334,7 +18338,7 @@ impl Worksheet {
         }
 
         if self.first_page_number > 0 {
-            attributes.push(("useFirstPageNumber", self.first_page_number.to_string()));
+            attributes.push(("useFirstPageNumber", "1".to_string()));
         }
 
         if self.print_black_and_white {
-- 
2.43.0


From 5c29560c82636eb66246c94304b3914588947388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:14 +0000
Subject: [PATCH 027/117] fix: allow the top left cell to be set back to A1

---
 src/worksheet.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 49b315a..4b52829 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -10020,6 +10020,7 @@ impl Worksheet {
 
         // Ignore cell (0, 0) since that is the default top-left cell.
         if row == 0 && col == 0 {
+            self.top_left_cell.clear();
             return Ok(self);
         }
 
-- 
2.43.0


From 7a014acf5254967f9edce55b7a16650f1e3f9bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:23 +0000
Subject: [PATCH 028/117] fix: ignore page breaks at 0 instead of panicking

---
 src/worksheet.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 4b52829..3d2d11a 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -12850,8 +12850,12 @@ impl Worksheet {
         let breaks = Self::process_pagebreaks(breaks)?;
 
         // Check max break value is within Excel column limit.
-        if *breaks.last().unwrap() >= ROW_MAX {
-            return Err(XlsxError::RowColumnLimitError);
+        match breaks.last() {
+            None => return Ok(self),
+            Some(&last_break) if last_break >= ROW_MAX => {
+                return Err(XlsxError::RowColumnLimitError)
+            }
+            Some(_) => {}
         }
 
         self.horizontal_breaks = breaks;
@@ -12890,8 +12894,12 @@ impl Worksheet {
         let breaks = Self::process_pagebreaks(breaks)?;
 
         // Check max break value is within Excel col limit.
-        if *breaks.last().unwrap() >= u32::from(COL_MAX) {
-            return Err(XlsxError::RowColumnLimitError);
+        match breaks.last() {
+            None => return Ok(self),
+            Some(&last_break) if last_break >= u32::from(COL_MAX) => {
+                return Err(XlsxError::RowColumnLimitError)
+            }
+            Some(_) => {}
         }
 
         self.vertical_breaks = breaks;
-- 
2.43.0


From e45bb6a05e324cded2526fc414d57212964ef33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:23 +0000
Subject: [PATCH 029/117] fix: write the sheet properties in the required order

---
 src/worksheet.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 3d2d11a..4d8436f 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -17674,15 +17674,15 @@ impl Worksheet {
         {
             xml_start_tag(&mut self.writer, "sheetPr", &attributes);
 
-            // Write the pageSetUpPr element.
-            self.write_page_set_up_pr();
-
             // Write the tabColor element.
             self.write_tab_color();
 
             // Write the outlinePr element.
             self.write_outline_pr();
 
+            // Write the pageSetUpPr element.
+            self.write_page_set_up_pr();
+
             xml_end_tag(&mut self.writer, "sheetPr");
         } else {
             xml_empty_tag(&mut self.writer, "sheetPr", &attributes);
-- 
2.43.0


From d3dacbc98d2bff03cf9521f1efcab53bbf635d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:45 +0000
Subject: [PATCH 030/117] fix: don't panic on sheet names like 'A.1'

---
 src/utility.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/utility.rs b/src/utility.rs
index 88e12f2..e3531f0 100644
--- a/src/utility.rs
+++ b/src/utility.rs
@@ -670,6 +670,7 @@ pub fn quote_sheet_name(sheetname: &str) -> String {
         // Excel row and column limits.
         // --------------------------------------------------------------------
         else if (1..=3).contains(&string_part.len())
+            && string_part.chars().all(|c| c.is_ascii_uppercase())
             && number_part.chars().all(|c| c.is_ascii_digit())
         {
             let col = column_name_to_number(&string_part);
-- 
2.43.0


From b6a0f6db2985c76e58fc5bb2e39389f71875b80e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:45 +0000
Subject: [PATCH 031/117] fix: don't panic on column names outside the limits

---
 src/utility.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/utility.rs b/src/utility.rs
index e3531f0..262c2a4 100644
--- a/src/utility.rs
+++ b/src/utility.rs
@@ -112,12 +112,13 @@ pub fn column_name_to_number(column: &str) -> ColNum {
         return 0;
     }
 
-    let mut col_num = 0;
+    let mut col_num: u32 = 0;
     for char in column.chars() {
-        col_num = (col_num * 26) + (char as u16 - 'A' as u16 + 1);
+        let digit = (char as u32 + 1).saturating_sub('A' as u32);
+        col_num = col_num.saturating_mul(26).saturating_add(digit);
     }
 
-    col_num - 1
+    ColNum::try_from(col_num.saturating_sub(1)).unwrap_or(ColNum::MAX)
 }
 
 /// Convert zero indexed row and column cell numbers to a `A1` style string.
@@ -674,7 +675,7 @@ pub fn quote_sheet_name(sheetname: &str) -> String {
             && number_part.chars().all(|c| c.is_ascii_digit())
         {
             let col = column_name_to_number(&string_part);
-            let col = u64::from(col + 1);
+            let col = u64::from(col) + 1;
 
             let row = number_part.parse::<u64>().unwrap_or_default();
 
-- 
2.43.0


From a33f5fc4697bbd85d9c2d31d2e61b1d56e23ca65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:45 +0000
Subject: [PATCH 032/117] fix: unquote all sheet names in chart range strings

---
 src/chart.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/chart.rs b/src/chart.rs
index 73b8b82..0fbbd17 100644
--- a/src/chart.rs
+++ b/src/chart.rs
@@ -8373,7 +8373,7 @@ impl ChartRange {
         let mut last_col = 0;
 
         // Parse the chart range string into the worksheet name and range parts.
-        if let Some(position) = range_string.find('!') {
+        if let Some(position) = range_string.rfind('!') {
             let range = &range_string[position + 1..].replace('$', "");
 
             if utility::is_valid_range(range) {
@@ -8420,12 +8420,10 @@ impl ChartRange {
         }
 
         // Strip the quotes from quoted sheet names.
-        if sheet_name.starts_with('\'') && sheet_name.ends_with('\'') {
-            sheet_name = &sheet_name[1..sheet_name.len() - 1];
-        }
+        let sheet_name = utility::unquote_sheetname(sheet_name);
 
         ChartRange {
-            sheet_name: sheet_name.to_string(),
+            sheet_name,
             first_row,
             first_col,
             last_row,
-- 
2.43.0


From 77137055e4a31560066746ca278b4235c349b047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:50 +0000
Subject: [PATCH 033/117] fix: write the correct name for ignored two digit
 year errors

---
 src/worksheet.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 4d8436f..4734206 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -20857,7 +20857,7 @@ impl fmt::Display for IgnoreError {
         match self {
             Self::FormulaError => write!(f, "evalError"),
             Self::FormulaDiffers => write!(f, "formula"),
-            Self::TwoDigitTextYear => write!(f, "TwoDigitTextYear"),
+            Self::TwoDigitTextYear => write!(f, "twoDigitTextYear"),
             Self::FormulaOmitsCells => write!(f, "formulaRange"),
             Self::DataValidationError => write!(f, "listDataValidation"),
             Self::NumberStoredAsText => write!(f, "numberStoredAsText"),
-- 
2.43.0


From 2792e19f4a92a431ff3be14041a2db93ed51e9f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:36 +0000
Subject: [PATCH 034/117] fix: don't keep the default active state of a default
 worksheet

---
 src/workbook.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/workbook.rs b/src/workbook.rs
index 53599c6..42e5354 100644
--- a/src/workbook.rs
+++ b/src/workbook.rs
@@ -2034,6 +2034,11 @@ impl Workbook {
     #[allow(clippy::similar_names)]
     #[allow(clippy::too_many_lines)]
     fn save_internal<W: Write + Seek + Send>(&mut self, writer: W) -> Result<(), XlsxError> {
+        // Add a default worksheet if none have been added.
+        if self.worksheets.is_empty() {
+            self.add_worksheet();
+        }
+
         // The worksheet that is activated by default, for this save only, keeps
         // its own state.
         let states: Vec<_> = self
-- 
2.43.0


From 4746140a70b36d51d24225c267df3c8c3fa18685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:31 +0000
Subject: [PATCH 035/117] fix: reject negative and NaN seconds in datetimes

---
 src/datetime.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/datetime.rs b/src/datetime.rs
index 32b9f0d..1b0927d 100644
--- a/src/datetime.rs
+++ b/src/datetime.rs
@@ -976,7 +976,7 @@ impl ExcelDateTime {
         }
 
         // Excel only supports milli-seconds.
-        if sec > 59.999 {
+        if !(0.0..=59.999).contains(&sec) {
             return Err(XlsxError::DateTimeRangeError(format!(
                 "Seconds: '{sec}' outside Excel range of 0-59.999"
             )));
-- 
2.43.0


From dd2e3fabd897474363f86875939a18fc449f7bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:31 +0000
Subject: [PATCH 036/117] fix: keep the seconds of datetime strings with a
 timezone

---
 src/datetime.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/datetime.rs b/src/datetime.rs
index 1b0927d..f7d7273 100644
--- a/src/datetime.rs
+++ b/src/datetime.rs
@@ -243,7 +243,7 @@ impl ExcelDateTime {
     ///
     #[allow(clippy::get_first)]
     pub fn parse_from_str(datetime: &str) -> Result<ExcelDateTime, XlsxError> {
-        let date_parts: Vec<&str> = datetime.trim().split(&['-', 'T', 'Z', ' ', ':']).collect();
+        let date_parts: Vec<&str> = datetime.trim().split(&['-', '+', 'T', 'Z', ' ', ':']).collect();
 
         // Match date and optional time.
         if datetime.contains('-') {
-- 
2.43.0


From 5207782670d522ad2be61777766b7de6e26e95fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:34 +0000
Subject: [PATCH 037/117] fix: write valid dates for serial datetime properties

---
 src/datetime.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/datetime.rs b/src/datetime.rs
index f7d7273..b80e235 100644
--- a/src/datetime.rs
+++ b/src/datetime.rs
@@ -1278,9 +1278,23 @@ impl ExcelDateTime {
     // Convert to UTC date in RFC 3339 format. This is used in custom
     // properties.
     pub(crate) fn to_rfc3339(&self) -> String {
+        // Serial datetimes don't have date parts so convert them via a timestamp.
+        if let Some(serial_datetime) = self.serial_datetime {
+            let unix_epoch = if serial_datetime < 60.0 {
+                25568.0
+            } else {
+                25569.0
+            };
+            let timestamp = (serial_datetime - unix_epoch) * DAY_SECONDS as f64;
+            if let Ok(datetime) = Self::from_timestamp(timestamp.round() as i64) {
+                return datetime.to_rfc3339();
+            }
+        }
+
+        // The format only supports whole seconds.
         format!(
             "{}-{:02}-{:02}T{:02}:{:02}:{:02}Z",
-            self.year, self.month, self.day, self.hour, self.min, self.sec
+            self.year, self.month, self.day, self.hour, self.min, self.sec as u8
         )
     }
 
-- 
2.43.0


From a131d221489b3e0719f538e02ac9f14c6a0e083f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:39 +0000
Subject: [PATCH 038/117] fix: keep the closing brace of array constants in
 formulas

---
 src/formula.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/formula.rs b/src/formula.rs
index e396e73..77db885 100644
--- a/src/formula.rs
+++ b/src/formula.rs
@@ -753,14 +753,12 @@ impl Formula {
         // Remove array formula braces and the leading = if they exist.
         let mut formula = formula.as_ref();
         if let Some(stripped) = formula.strip_prefix('{') {
-            formula = stripped;
+            // A trailing brace on its own belongs to an array constant.
+            formula = stripped.strip_suffix('}').unwrap_or(stripped);
         }
         if let Some(stripped) = formula.strip_prefix('=') {
             formula = stripped;
         }
-        if let Some(stripped) = formula.strip_suffix('}') {
-            formula = stripped;
-        }
 
         // We need to escape future functions in a formula string. If the user
         // has already done this we simply copy the string. In both cases we
-- 
2.43.0


From 9b6908e066459ef28b453dd573d92ceeceede5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:39 +0000
Subject: [PATCH 039/117] fix: only prefix future functions where they are
 called

---
 src/formula.rs | 84 +++++++++++++++++++++++++++++---------------------
 1 file changed, 49 insertions(+), 35 deletions(-)

diff --git a/src/formula.rs b/src/formula.rs
index 77db885..ba848c8 100644
--- a/src/formula.rs
+++ b/src/formula.rs
@@ -837,27 +837,14 @@ impl Formula {
     fn escape_formula(formula: &str) -> (String, bool) {
         let mut start_position = 0;
         let mut in_function = false;
-        let mut in_string_literal = false;
+        let mut literal = FormulaLiteral::default();
         let mut has_dynamic_function = false;
         let mut escaped_formula = String::with_capacity(formula.len());
 
         for (current_position, char) in formula.char_indices() {
-            // Match the start/end of string literals. We track these to avoid
-            // escaping function names in strings. In Excel a double quote in a
-            // string literal is doubled, so this will also match escapes.
-            if char == '"' {
-                in_string_literal = !in_string_literal;
-            }
-
-            // Copy the string literal.
-            if in_string_literal {
-                escaped_formula.push(char);
-                continue;
-            }
-
-            // Function names are comprised of "A-Z", "0-9" and ".".
-            let is_function_char =
-                char.is_ascii_uppercase() || char.is_ascii_digit() || char == '.';
+            // Function names are comprised of "A-Z", "0-9" and "." but we match
+            // all name characters to avoid escaping the end of a longer name.
+            let is_function_char = !literal.contains(char) && Self::is_name_char(char);
 
             // Simple state machine where we are either accumulating possible
             // function names in a buffer for evaluation, or copying non-function
@@ -912,26 +899,13 @@ impl Formula {
     fn copy_escaped_formula(formula: &str) -> (String, bool) {
         let mut start_position = 0;
         let mut in_function = false;
-        let mut in_string_literal = false;
+        let mut literal = FormulaLiteral::default();
         let mut has_dynamic_function = false;
 
         for (current_position, char) in formula.char_indices() {
-            // Match the start/end of string literals. We track these to avoid
-            // matching function names in strings. In Excel a double quote in a
-            // string literal is doubled, so this will also match escapes.
-            if char == '"' {
-                in_string_literal = !in_string_literal;
-            }
-
-            // Ignore the string literal.
-            if in_string_literal {
-                continue;
-            }
-
-            // Function names are comprised of "A-Z", "0-9" and ".".
-            let is_function_char =
-                char.is_ascii_uppercase() || char.is_ascii_digit() || char == '.';
-            let is_function_start_char = char.is_ascii_uppercase() || char.is_ascii_digit();
+            // Function names are comprised of "A-Z", "0-9" and "." but we match
+            // all name characters to avoid matching the end of a longer name.
+            let is_function_char = !literal.contains(char) && Self::is_name_char(char);
 
             // Simple state machine where we accumulate possible function names
             // in a buffer for evaluation.
@@ -943,6 +917,8 @@ impl Formula {
                     // have found a function name.
                     if char == '(' {
                         // Check if function is an Excel "future" function.
+                        let token = token.trim_start_matches("_xlfn.");
+                        let token = token.trim_start_matches("_xlws.");
                         if let Some(function_type) = Self::future_functions(token) {
                             has_dynamic_function |= *function_type > 0;
                         }
@@ -950,7 +926,7 @@ impl Formula {
 
                     in_function = false;
                 }
-            } else if is_function_start_char {
+            } else if is_function_char {
                 // Match the start of a possible function name.
                 start_position = current_position;
                 in_function = true;
@@ -960,6 +936,11 @@ impl Formula {
         (formula.to_string(), has_dynamic_function)
     }
 
+    // Check for the characters that are allowed in function and defined names.
+    fn is_name_char(char: char) -> bool {
+        char.is_alphanumeric() || matches!(char, '.' | '_' | '\\')
+    }
+
     // Escape/expand table functions. This mainly involves converting Excel 2010
     // "@" table ref to 2007 "[#This Row],". We parse the string to avoid
     // replacements in string literals within the formula.
@@ -1178,6 +1159,39 @@ impl Formula {
     }
 }
 
+// Track the parts of a formula that can't contain functions: string literals,
+// quoted worksheet names and structured table references.
+#[derive(Default)]
+struct FormulaLiteral {
+    quote: Option<char>,
+    brackets: u32,
+    is_escape: bool,
+}
+
+impl FormulaLiteral {
+    // Check if the next character of the formula is part of a literal. Quotes
+    // are doubled in literals, so this will also match escapes.
+    fn contains(&mut self, char: char) -> bool {
+        if let Some(quote) = self.quote {
+            if char == quote {
+                self.quote = None;
+            }
+        } else if self.is_escape {
+            self.is_escape = false;
+        } else {
+            match char {
+                '[' => self.brackets += 1,
+                ']' => self.brackets = self.brackets.saturating_sub(1),
+                '\'' if self.brackets > 0 => self.is_escape = true,
+                '"' | '\'' if self.brackets == 0 => self.quote = Some(char),
+                _ => return self.brackets > 0,
+            }
+        }
+
+        true
+    }
+}
+
 impl From<&str> for Formula {
     fn from(value: &str) -> Formula {
         Formula::new(value)
-- 
2.43.0


From 2b0eed14ae53514c408bf37620851a5f00f7db17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:23 +0000
Subject: [PATCH 040/117] fix: match numbers and blanks with negative
 autofilter conditions

---
 src/filter.rs    | 11 +++++++++++
 src/worksheet.rs | 16 ++++++++--------
 2 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/filter.rs b/src/filter.rs
index 25ecd8c..ac7f163 100644
--- a/src/filter.rs
+++ b/src/filter.rs
@@ -778,6 +778,17 @@ pub enum FilterCriteria {
 
 #[allow(clippy::match_same_arms)]
 impl FilterCriteria {
+    // Check for criteria that match the cells that differ from the filter value.
+    pub(crate) fn is_negative(self) -> bool {
+        matches!(
+            self,
+            FilterCriteria::NotEqualTo
+                | FilterCriteria::DoesNotBeginWith
+                | FilterCriteria::DoesNotEndWith
+                | FilterCriteria::DoesNotContain
+        )
+    }
+
     pub(crate) fn operator(self) -> String {
         match self {
             FilterCriteria::EqualTo => String::new(),
diff --git a/src/worksheet.rs b/src/worksheet.rs
index 4734206..8005122 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -14959,18 +14959,18 @@ impl Worksheet {
                             return false;
                         }
                     }
-                    _ => {
-                        // Any existing non-blank cell should match the "non-blanks" criteria
-                        // explained above.
-                        if filter.criteria == FilterCriteria::NotEqualTo && filter.string == " " {
-                            return true;
-                        }
-                    }
+                    // We don't currently try to handle matching any other data types.
+                    _ => {}
                 }
+
+                // Any other cell differs from the filter value. This includes
+                // non-blank cells with the "non-blanks" criteria explained above.
+                return filter.criteria.is_negative();
             }
         }
 
-        false
+        // A cell without data is a blank cell.
+        filter.criteria.is_negative() && filter.string != " "
     }
 
     // Process pagebreaks to sort them, remove duplicates and check the number
-- 
2.43.0


From 5ab4b6801bf8e21fcba35cc26596d2c8d18fd2c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:23 +0000
Subject: [PATCH 041/117] fix: only hide autofiltered rows in the saved file

---
 src/workbook.rs  | 11 +++++++++++
 src/worksheet.rs | 24 +++++++++++++++++++++++-
 2 files changed, 34 insertions(+), 1 deletion(-)

diff --git a/src/workbook.rs b/src/workbook.rs
index 42e5354..8c6ca23 100644
--- a/src/workbook.rs
+++ b/src/workbook.rs
@@ -2047,12 +2047,23 @@ impl Workbook {
             .map(|worksheet| (worksheet.active, worksheet.selected, worksheet.visible))
             .collect();
 
+        // Likewise for the rows that are hidden by an autofilter.
+        let unfiltered_rows: Vec<_> = self
+            .worksheets
+            .iter()
+            .map(Worksheet::unfiltered_rows)
+            .collect();
+
         let result = self.assemble_and_save(writer);
 
         for (worksheet, state) in self.worksheets.iter_mut().zip(states) {
             (worksheet.active, worksheet.selected, worksheet.visible) = state;
         }
 
+        for (worksheet, rows) in self.worksheets.iter_mut().zip(unfiltered_rows) {
+            worksheet.restore_unfiltered_rows(rows);
+        }
+
         result
     }
 
diff --git a/src/worksheet.rs b/src/worksheet.rs
index 8005122..5c226eb 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -14753,6 +14753,28 @@ impl Worksheet {
         }
     }
 
+    // Get the row properties and dimensions without the changes made by
+    // `hide_autofilter_rows()`.
+    pub(crate) fn unfiltered_rows(&self) -> Option<(HashMap<RowNum, RowOptions>, CellRange)> {
+        if self.filter_conditions.is_empty() || self.filter_automatic_off {
+            return None;
+        }
+
+        Some((self.changed_rows.clone(), self.dimensions.clone()))
+    }
+
+    // Restore the row properties after the changes made by
+    // `hide_autofilter_rows()`.
+    pub(crate) fn restore_unfiltered_rows(
+        &mut self,
+        rows: Option<(HashMap<RowNum, RowOptions>, CellRange)>,
+    ) {
+        if let Some((changed_rows, dimensions)) = rows {
+            self.changed_rows = changed_rows;
+            self.dimensions = dimensions;
+        }
+    }
+
     // Hide any rows in the autofilter range that don't match the autofilter
     // conditions, like Excel does at runtime.
     pub(crate) fn hide_autofilter_rows(&mut self) {
@@ -20533,7 +20555,7 @@ impl Default for CellRange {
 }
 
 #[derive(Clone)]
-struct RowOptions {
+pub(crate) struct RowOptions {
     height: f64,
     xf_index: u32,
     level: u8,
-- 
2.43.0


From c19b3eb72e0b614b7aab7e5643bc3a9c24a03217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:23 +0000
Subject: [PATCH 042/117] fix: reject a table that only has a total row

---
 src/worksheet.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 5c226eb..3e1acb0 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -8791,7 +8791,7 @@ impl Worksheet {
         }
 
         // Check that the table has at least one valid row.
-        if first_row == last_row && table.show_header_row {
+        if first_row == last_row && (table.show_header_row || table.show_total_row) {
             return Err(XlsxError::TableError(
                 "Table must have at least one row".to_string(),
             ));
-- 
2.43.0


From 357ab9276b431c621f9edafb61e09e4a5c0a662d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:23 +0000
Subject: [PATCH 043/117] fix: check the range of a table before writing its
 cells

---
 src/worksheet.rs | 64 ++++++++++++++++++++++++++----------------------
 1 file changed, 35 insertions(+), 29 deletions(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 3e1acb0..6decd35 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -8804,6 +8804,37 @@ impl Worksheet {
         table.cell_range = CellRange::new(first_row, first_col, last_row, last_col);
         table.initialize_columns(&default_headers)?;
 
+        // Create a cell range for storage and range testing.
+        let cell_range = CellRange::new(first_row, first_col, last_row, last_col);
+
+        // Check if the table range overlaps any previous table range. This is a
+        // major error in Excel.
+        for row in first_row..=last_row {
+            for col in first_col..=last_col {
+                if let Some(index) = self.table_cells.get(&(row, col)) {
+                    let previous_cell_range = self.table_ranges.get(*index).unwrap();
+                    return Err(XlsxError::TableRangeOverlaps(
+                        cell_range.to_error_string(),
+                        previous_cell_range.to_error_string(),
+                    ));
+                }
+            }
+        }
+
+        // Check that the table autofilter doesn't overlap the worksheet
+        // autofilter.
+        if table.show_autofilter && table.show_header_row {
+            for col in first_col..=last_col {
+                let filter_data = self.cells_with_autofilter.get(&(first_row, col));
+                if let Some((FilterType::Worksheet, filter_range)) = filter_data {
+                    return Err(XlsxError::AutofilterRangeOverlaps(
+                        table.cell_range.to_error_string(),
+                        filter_range.to_error_string(),
+                    ));
+                }
+            }
+        }
+
         let first_data_row = table.first_data_row();
         let last_data_row = table.last_data_row();
 
@@ -8869,43 +8900,18 @@ impl Worksheet {
             self.set_writing_ahead(false);
         }
 
-        // Create a cell range for storage and range testing.
-        let cell_range = CellRange::new(first_row, first_col, last_row, last_col);
-
-        // Check if the table range overlaps any previous table range. This is a
-        // major error in Excel. Note, the ranges are stored in a separate Vec
-        // to the cells to cut down on storage size.
+        // Store the cells of the table for range testing. Note, the ranges are
+        // stored in a separate Vec to the cells to cut down on storage size.
         let new_index = self.table_ranges.len();
         for row in first_row..=last_row {
             for col in first_col..=last_col {
-                match self.table_cells.get_mut(&(row, col)) {
-                    Some(index) => {
-                        let previous_cell_range = self.table_ranges.get(*index).unwrap();
-                        return Err(XlsxError::TableRangeOverlaps(
-                            cell_range.to_error_string(),
-                            previous_cell_range.to_error_string(),
-                        ));
-                    }
-                    None => self.table_cells.insert((row, col), new_index),
-                };
+                self.table_cells.insert((row, col), new_index);
             }
         }
 
         // Store the cells with the autofilter dropdown for the autofit calc.
-        if table.show_autofilter {
+        if table.show_autofilter && table.show_header_row {
             for col in first_col..=last_col {
-                // Check that the table autofilter doesn't overlap the worksheet
-                // autofilter.
-                let filter_data = self.cells_with_autofilter.get(&(first_row, col));
-                if let Some((filter_type, filter_range)) = filter_data {
-                    if *filter_type == FilterType::Worksheet {
-                        return Err(XlsxError::AutofilterRangeOverlaps(
-                            table.cell_range.to_error_string(),
-                            filter_range.to_error_string(),
-                        ));
-                    }
-                }
-
                 self.cells_with_autofilter.insert(
                     (first_row, col),
                     (FilterType::Table, table.cell_range.clone()),
-- 
2.43.0


From bb854de1a7fd9728d628d2ea40a2707fd8f27b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:43 +0000
Subject: [PATCH 044/117] fix: number default table names on every save

---
 src/table.rs     | 15 ++++++++++-----
 src/workbook.rs  |  8 +++++---
 src/worksheet.rs |  3 ---
 3 files changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/table.rs b/src/table.rs
index b579f1b..cdf12c1 100644
--- a/src/table.rs
+++ b/src/table.rs
@@ -1165,6 +1165,15 @@ impl Table {
         Ok(())
     }
 
+    // Get the user defined name or the default name for the table index.
+    pub(crate) fn display_name(&self) -> String {
+        if self.name.is_empty() {
+            format!("Table{}", self.index)
+        } else {
+            self.name.clone()
+        }
+    }
+
     // Get the first row that can be used to write data.
     pub(crate) fn first_data_row(&self) -> RowNum {
         if self.show_header_row {
@@ -1213,11 +1222,7 @@ impl Table {
     fn write_table(&mut self) {
         let schema = "http://schemas.openxmlformats.org/spreadsheetml/2006/main".to_string();
         let range = self.cell_range.to_range_string();
-        let name = if self.name.is_empty() {
-            format!("Table{}", self.index)
-        } else {
-            self.name.clone()
-        };
+        let name = self.display_name();
 
         let mut attributes = vec![
             ("xmlns", schema),
diff --git a/src/workbook.rs b/src/workbook.rs
index 8c6ca23..1f21606 100644
--- a/src/workbook.rs
+++ b/src/workbook.rs
@@ -2401,11 +2401,13 @@ impl Workbook {
         // Check for duplicate table names.
         for worksheet in &self.worksheets {
             for table in &worksheet.tables {
-                if seen_table_names.contains(&table.name.to_lowercase()) {
-                    return Err(XlsxError::TableNameReused(table.name.to_string()));
+                let table_name = table.display_name();
+
+                if seen_table_names.contains(&table_name.to_lowercase()) {
+                    return Err(XlsxError::TableNameReused(table_name));
                 }
 
-                seen_table_names.insert(table.name.to_lowercase());
+                seen_table_names.insert(table_name.to_lowercase());
             }
         }
 
diff --git a/src/worksheet.rs b/src/worksheet.rs
index 6decd35..b26ba5b 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -16612,9 +16612,6 @@ impl Worksheet {
     pub(crate) fn prepare_worksheet_tables(&mut self, mut table_id: u32) -> u32 {
         for table in &mut self.tables {
             table.index = table_id;
-            if table.name.is_empty() {
-                table.name = format!("Table{table_id}");
-            }
 
             // Change any column format local index from local to global.
             for column in &mut table.columns {
-- 
2.43.0


From 541ea512822e0e4e712097716658feb18cfc87b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:43 +0000
Subject: [PATCH 045/117] fix: keep the format of table columns when saving
 again

---
 src/table.rs     | 6 ++++--
 src/worksheet.rs | 4 ++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/table.rs b/src/table.rs
index cdf12c1..945ae33 100644
--- a/src/table.rs
+++ b/src/table.rs
@@ -1282,8 +1282,8 @@ impl Table {
             attributes.push(("totalsRowFunction", column.total_function.to_string()));
         }
 
-        if let Some(format) = &column.format {
-            attributes.push(("dataDxfId", format.dxf_index.to_string()));
+        if column.format.is_some() {
+            attributes.push(("dataDxfId", column.dxf_index.to_string()));
         }
 
         if column.formula.is_some() || matches!(&column.total_function, TableFunction::Custom(_)) {
@@ -1425,6 +1425,7 @@ pub struct TableColumn {
     pub(crate) formula: Option<Formula>,
     pub(crate) format: Option<Format>,
     pub(crate) header_format: Option<Format>,
+    pub(crate) dxf_index: u32,
 }
 
 impl TableColumn {
@@ -1438,6 +1439,7 @@ impl TableColumn {
             formula: None,
             format: None,
             header_format: None,
+            dxf_index: 0,
         }
     }
 
diff --git a/src/worksheet.rs b/src/worksheet.rs
index b26ba5b..91ee3e0 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -16615,8 +16615,8 @@ impl Worksheet {
 
             // Change any column format local index from local to global.
             for column in &mut table.columns {
-                if let Some(format) = column.format.as_mut() {
-                    format.dxf_index = self.global_dxf_indices[format.dxf_index as usize];
+                if let Some(format) = &column.format {
+                    column.dxf_index = self.global_dxf_indices[format.dxf_index as usize];
                 }
             }
 
-- 
2.43.0


From 675d712b38f90c4405143514c7de92494fb66d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:16 +0000
Subject: [PATCH 046/117] fix: don't write a total formula for a table column
 with a total label

---
 src/table.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/table.rs b/src/table.rs
index 945ae33..8e19b17 100644
--- a/src/table.rs
+++ b/src/table.rs
@@ -1286,7 +1286,13 @@ impl Table {
             attributes.push(("dataDxfId", column.dxf_index.to_string()));
         }
 
-        if column.formula.is_some() || matches!(&column.total_function, TableFunction::Custom(_)) {
+        // The total label takes precedence over the total function.
+        let total_formula = match &column.total_function {
+            TableFunction::Custom(formula) if column.total_label.is_empty() => Some(formula),
+            _ => None,
+        };
+
+        if column.formula.is_some() || total_formula.is_some() {
             xml_start_tag(&mut self.writer, "tableColumn", &attributes);
 
             if let Some(formula) = &column.formula {
@@ -1294,7 +1300,7 @@ impl Table {
                 self.write_calculated_column_formula(&formula.formula_string);
             }
 
-            if let TableFunction::Custom(formula) = &column.total_function {
+            if let Some(formula) = total_formula {
                 // Write the totalsRowFormula element.
                 self.write_totals_row_formula(&formula.formula_string);
             }
-- 
2.43.0


From b66cc6dbccb12ad2889c3cf8423df72786568f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:16 +0000
Subject: [PATCH 047/117] fix: flush constant memory rows before the sheet data
 is started

---
 src/packager.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/packager.rs b/src/packager.rs
index bdda890..9779298 100644
--- a/src/packager.rs
+++ b/src/packager.rs
@@ -447,6 +447,10 @@ impl<W: Write + Seek + Send> Packager<W> {
         if worksheet.use_constant_memory {
             // Write the constant memory style worksheet in 3 sections.
 
+            // Flush any remaining rows so that all the row data is known.
+            #[cfg(feature = "constant_memory")]
+            worksheet.flush_last_row();
+
             // Section 1. In memory metadata at start of the file.
             worksheet.assemble_xml_file_start();
             self.zip.write_all(worksheet.writer.get_ref())?;
@@ -454,9 +458,6 @@ impl<W: Write + Seek + Send> Packager<W> {
             #[cfg(feature = "constant_memory")]
             {
                 // Section 2. On disk cell data.
-                // We also need to flush the last remaining row.
-                worksheet.flush_last_row();
-
                 worksheet.file_writer.rewind().unwrap();
                 let mut reader = BufReader::new(worksheet.file_writer.get_ref());
                 loop {
-- 
2.43.0


From 1b9663f5a66855e90d216a331c4d20aaf2e0f639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:16 +0000
Subject: [PATCH 048/117] fix: return errors when copying constant memory data

---
 src/packager.rs | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/src/packager.rs b/src/packager.rs
index 9779298..a375801 100644
--- a/src/packager.rs
+++ b/src/packager.rs
@@ -44,7 +44,7 @@ use std::collections::HashSet;
 use std::io::{Seek, Write};
 
 #[cfg(feature = "constant_memory")]
-use std::io::{BufRead, BufReader};
+use std::io::{BufReader, SeekFrom};
 
 use std::sync::{Arc, Mutex};
 #[cfg(not(target_arch = "wasm32"))]
@@ -458,17 +458,13 @@ impl<W: Write + Seek + Send> Packager<W> {
             #[cfg(feature = "constant_memory")]
             {
                 // Section 2. On disk cell data.
-                worksheet.file_writer.rewind().unwrap();
+                worksheet.file_writer.rewind()?;
                 let mut reader = BufReader::new(worksheet.file_writer.get_ref());
-                loop {
-                    let buffer = reader.fill_buf().unwrap();
-                    let length = buffer.len();
-                    if length == 0 {
-                        break;
-                    }
-                    self.zip.write_all(buffer).unwrap();
-                    reader.consume(length);
-                }
+                let result = std::io::copy(&mut reader, &mut self.zip);
+
+                // Move back to the end of the data for any subsequent writes.
+                worksheet.file_writer.seek(SeekFrom::End(0))?;
+                result?;
             }
 
             // Section 3. In memory metadata at end of the file.
-- 
2.43.0


From e32e0f48246bfff982c0789ad70934e267e78bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:25 +0000
Subject: [PATCH 049/117] fix: escape escape sequences in table column names
 and labels

---
 src/datetime.rs |  5 ++++-
 src/table.rs    | 11 ++++++++---
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/datetime.rs b/src/datetime.rs
index b80e235..4093442 100644
--- a/src/datetime.rs
+++ b/src/datetime.rs
@@ -243,7 +243,10 @@ impl ExcelDateTime {
     ///
     #[allow(clippy::get_first)]
     pub fn parse_from_str(datetime: &str) -> Result<ExcelDateTime, XlsxError> {
-        let date_parts: Vec<&str> = datetime.trim().split(&['-', '+', 'T', 'Z', ' ', ':']).collect();
+        let date_parts: Vec<&str> = datetime
+            .trim()
+            .split(&['-', '+', 'T', 'Z', ' ', ':'])
+            .collect();
 
         // Match date and optional time.
         if datetime.contains('-') {
diff --git a/src/table.rs b/src/table.rs
index 8e19b17..c1bd396 100644
--- a/src/table.rs
+++ b/src/table.rs
@@ -12,7 +12,8 @@ use std::io::Cursor;
 use std::{collections::HashSet, fmt};
 
 use crate::xmlwriter::{
-    xml_data_element_only, xml_declaration, xml_empty_tag, xml_end_tag, xml_start_tag,
+    escape_xml_escapes, xml_data_element_only, xml_declaration, xml_empty_tag, xml_end_tag,
+    xml_start_tag,
 };
 use crate::{utility::ToXmlBoolean, CellRange, Format, Formula, RowNum, XlsxError};
 
@@ -1274,10 +1275,14 @@ impl Table {
 
     // Write the <tableColumn> element.
     fn write_column(&mut self, index: usize, column: &TableColumn) {
-        let mut attributes = vec![("id", index.to_string()), ("name", column.name.clone())];
+        let mut attributes = vec![
+            ("id", index.to_string()),
+            ("name", escape_xml_escapes(&column.name).to_string()),
+        ];
 
         if !column.total_label.is_empty() {
-            attributes.push(("totalsRowLabel", column.total_label.clone()));
+            let label = escape_xml_escapes(&column.total_label);
+            attributes.push(("totalsRowLabel", label.to_string()));
         } else if column.total_function != TableFunction::None {
             attributes.push(("totalsRowFunction", column.total_function.to_string()));
         }
-- 
2.43.0


From 6a355dd8e7a1a358310e622a132cba7b92e71380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:39 +0000
Subject: [PATCH 050/117] fix: don't reuse dxf number format indices when
 saving again

---
 src/workbook.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/workbook.rs b/src/workbook.rs
index 1f21606..39c9eb7 100644
--- a/src/workbook.rs
+++ b/src/workbook.rs
@@ -2172,6 +2172,14 @@ impl Workbook {
 
         drop(xf_indices);
 
+        // Do the same for the DXF formats so that they don't keep any indices
+        // from a previous save.
+        let mut dxf_indices_vec: Vec<(&Format, &u32)> = self.dxf_indices.iter().collect();
+        dxf_indices_vec.sort_by(|a, b| a.1.cmp(b.1));
+
+        let dxf_formats: Vec<Format> = dxf_indices_vec.iter().map(|x| x.0.clone()).collect();
+        self.dxf_formats = dxf_formats;
+
         // Map worksheet/local format indices to the workbook/global values.
         for (i, worksheet) in self.worksheets.iter_mut().enumerate() {
             worksheet.set_global_xf_indices(&worksheet_xf_indices[i]);
-- 
2.43.0


From 9d109b834ba65946fefe928d5a29d25f93810eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:17 +0000
Subject: [PATCH 051/117] fix: keep the location of a relative file link on an
 image

---
 src/url.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/url.rs b/src/url.rs
index 8d24eec..4f18854 100644
--- a/src/url.rs
+++ b/src/url.rs
@@ -451,6 +451,10 @@ impl Url {
             if self.is_object_link {
                 if is_relative_path {
                     self.relationship_link = self.link.replace('\\', "/");
+                    if !self.anchor.is_empty() {
+                        self.relationship_link =
+                            format!("{}#{}", self.relationship_link, self.anchor);
+                    }
                 } else {
                     self.relationship_link.clone_from(&self.original_url);
                 }
-- 
2.43.0


From 60f2ac7176a9c5bdbe47b87dd22705d03b7d35f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:17 +0000
Subject: [PATCH 052/117] fix: keep the #location of a link on a shape

---
 src/shape.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/shape.rs b/src/shape.rs
index 87282ac..37d44c9 100644
--- a/src/shape.rs
+++ b/src/shape.rs
@@ -560,6 +560,7 @@ impl Shape {
     ///
     pub fn set_url(mut self, link: impl Into<Url>) -> Result<Shape, XlsxError> {
         let mut url = link.into();
+        url.is_object_link = true;
         url.initialize()?;
 
         self.url = Some(url);
-- 
2.43.0


From 4d022327903a55b0666ab623282dd02e5670cfc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:17 +0000
Subject: [PATCH 053/117] fix: object links that differ in their #location
 share one relationship

---
 src/worksheet.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 91ee3e0..ad5373f 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -16258,11 +16258,11 @@ impl Worksheet {
                 let target = hyperlink.target();
                 let target_mode = hyperlink.target_mode();
 
-                let rel_id = match self.drawing_rel_ids.get(&hyperlink.link) {
+                let rel_id = match self.drawing_rel_ids.get(&target) {
                     Some(rel_id) => *rel_id,
                     None => {
                         let rel_id = 1 + self.drawing_rel_ids.len() as u32;
-                        self.drawing_rel_ids.insert(hyperlink.link.clone(), rel_id);
+                        self.drawing_rel_ids.insert(target.clone(), rel_id);
 
                         // Store the linkage to the drawings rels file.
                         self.drawing_relationships.push((
@@ -16349,11 +16349,11 @@ impl Worksheet {
                 let target = hyperlink.target();
                 let target_mode = hyperlink.target_mode();
 
-                let rel_id = match self.drawing_rel_ids.get(&hyperlink.link) {
+                let rel_id = match self.drawing_rel_ids.get(&target) {
                     Some(rel_id) => *rel_id,
                     None => {
                         let rel_id = 1 + self.drawing_rel_ids.len() as u32;
-                        self.drawing_rel_ids.insert(hyperlink.link.clone(), rel_id);
+                        self.drawing_rel_ids.insert(target.clone(), rel_id);
 
                         // Store the linkage to the drawings rels file.
                         self.drawing_relationships.push((
-- 
2.43.0


From f901aa91c5b7c7566db7d6696646f2d27c118f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:17 +0000
Subject: [PATCH 054/117] fix: links of shapes on a worksheet with charts use
 the wrong relationship

---
 src/worksheet.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index ad5373f..689ac0c 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -16261,7 +16261,7 @@ impl Worksheet {
                 let rel_id = match self.drawing_rel_ids.get(&target) {
                     Some(rel_id) => *rel_id,
                     None => {
-                        let rel_id = 1 + self.drawing_rel_ids.len() as u32;
+                        let rel_id = 1 + self.drawing_relationships.len() as u32;
                         self.drawing_rel_ids.insert(target.clone(), rel_id);
 
                         // Store the linkage to the drawings rels file.
@@ -16284,7 +16284,7 @@ impl Worksheet {
             let rel_id = match self.drawing_rel_ids.get(&image.hash) {
                 Some(rel_id) => *rel_id,
                 None => {
-                    let rel_id = 1 + self.drawing_rel_ids.len() as u32;
+                    let rel_id = 1 + self.drawing_relationships.len() as u32;
                     self.drawing_rel_ids.insert(image.hash.clone(), rel_id);
 
                     // Store the linkage to the drawings rels file.
@@ -16352,7 +16352,7 @@ impl Worksheet {
                 let rel_id = match self.drawing_rel_ids.get(&target) {
                     Some(rel_id) => *rel_id,
                     None => {
-                        let rel_id = 1 + self.drawing_rel_ids.len() as u32;
+                        let rel_id = 1 + self.drawing_relationships.len() as u32;
                         self.drawing_rel_ids.insert(target.clone(), rel_id);
 
                         // Store the linkage to the drawings rels file.
@@ -16561,7 +16561,6 @@ impl Worksheet {
         }
 
         let mut rel_id = self.drawing_relationships.len() as u32;
-        self.drawing_rel_ids.insert("Chart".to_string(), rel_id);
 
         for (cell, chart) in &mut self.charts.clone() {
             let row = cell.0;
-- 
2.43.0


From a76ecf8b8ceff118c27b87750bc9d84ce8bd84b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:17 +0000
Subject: [PATCH 055/117] fix: header and footer images refer to the wrong
 media file

---
 src/workbook.rs  | 6 +-----
 src/worksheet.rs | 8 ++++----
 2 files changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/workbook.rs b/src/workbook.rs
index 39c9eb7..52fdabc 100644
--- a/src/workbook.rs
+++ b/src/workbook.rs
@@ -2384,11 +2384,7 @@ impl Workbook {
             }
 
             if worksheet.has_header_footer_images() {
-                // The header/footer images are counted from the last worksheet id.
-                let base_image_id =
-                    background_image_ids.len() as u32 + worksheet_image_ids.len() as u32;
-
-                worksheet.prepare_header_footer_images(&mut header_footer_image_ids, base_image_id);
+                worksheet.prepare_header_footer_images(&mut header_footer_image_ids, &mut image_id);
             }
         }
     }
diff --git a/src/worksheet.rs b/src/worksheet.rs
index 689ac0c..63fb7af 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -16401,16 +16401,16 @@ impl Worksheet {
     pub(crate) fn prepare_header_footer_images(
         &mut self,
         image_ids: &mut HashMap<String, u32>,
-        base_image_id: u32,
+        image_id: &mut u32,
     ) {
         let mut rel_ids: HashMap<String, u32> = HashMap::new();
         for image in self.header_footer_images.clone().into_iter().flatten() {
             let image_id = match image_ids.get(&image.hash) {
                 Some(image_id) => *image_id,
                 None => {
-                    let image_id = 1 + base_image_id + image_ids.len() as u32;
-                    image_ids.insert(image.hash.clone(), image_id);
-                    image_id
+                    *image_id += 1;
+                    image_ids.insert(image.hash.clone(), *image_id);
+                    *image_id
                 }
             };
 
-- 
2.43.0


From a1aa2ad5349aee808564da24ddb8187f0423ce67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:17 +0000
Subject: [PATCH 056/117] fix: a chartsheet holds one chart, whatever the
 offset it is inserted with

---
 src/worksheet.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 63fb7af..b480b43 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -5650,13 +5650,11 @@ impl Worksheet {
         chart.y_offset = y_offset;
 
         // Limit chartsheets to one chart in position (0, 0).
-        let mut row = row;
-        let mut col = col;
         if self.is_chartsheet {
-            row = 0;
-            col = 0;
             chart.x_offset = 0;
             chart.y_offset = 0;
+            self.charts.insert((0, 0, 0, 0), chart);
+            return Ok(self);
         }
 
         // Store workbook objects in row by column position order.
-- 
2.43.0


From 9c0c87fdaa84245b05e1de71a5ebb0344958d2d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:17 +0000
Subject: [PATCH 057/117] fix: notes show the name of another author

---
 src/packager.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/packager.rs b/src/packager.rs
index a375801..ab813d4 100644
--- a/src/packager.rs
+++ b/src/packager.rs
@@ -894,7 +894,14 @@ impl<W: Write + Seek + Send> Packager<W> {
 
                 let mut comment = Comment::new();
                 comment.notes = worksheet.notes.clone();
-                comment.note_authors = worksheet.note_authors.keys().cloned().collect();
+
+                // The notes refer to the authors by id.
+                let mut note_authors: Vec<_> = worksheet.note_authors.iter().collect();
+                note_authors.sort_by_key(|(_, id)| **id);
+                comment.note_authors = note_authors
+                    .into_iter()
+                    .map(|(author, _)| author.clone())
+                    .collect();
 
                 comment.assemble_xml_file();
 
-- 
2.43.0


From 4d61317c9073b9dc8f69598d593445571109b31c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:03 +0000
Subject: [PATCH 058/117] fix: saving makes the effect of show_all_notes()
 permanent

---
 src/worksheet.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index b480b43..f5043f6 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -16459,14 +16459,9 @@ impl Worksheet {
         let mut button_id = 1;
         let mut note_count = 0;
 
-        // Modify Note visibility and author according to worksheet settings.
+        // Modify Note author according to worksheet settings.
         for columns in self.notes.values_mut() {
             for note in columns.values_mut() {
-                // Set all notes visible if required.
-                if self.show_all_notes && note.is_visible.is_none() {
-                    note.is_visible = Some(true);
-                }
-
                 // Check for a user defined author name.
                 let Some(note_author) = &note.author else {
                     continue;
@@ -16497,6 +16492,10 @@ impl Worksheet {
                 vml_info.row = *cell_row;
                 vml_info.col = *cell_col;
 
+                // Show the note if all notes should be visible, unless the user
+                // has set the visibility of the note.
+                vml_info.is_visible = note.is_visible.unwrap_or(self.show_all_notes);
+
                 // Store the note vml data.
                 self.comments_vml_info.push(vml_info);
 
-- 
2.43.0


From e8796dc9d4a4d64574757a29151e97429455dac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:03 +0000
Subject: [PATCH 059/117] fix: a failed save repeats shapes, notes and buttons
 in the next save

---
 src/drawing.rs   | 2 +-
 src/worksheet.rs | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/drawing.rs b/src/drawing.rs
index 90cdda7..5f07727 100644
--- a/src/drawing.rs
+++ b/src/drawing.rs
@@ -22,7 +22,7 @@ pub struct Drawing {
     pub(crate) writer: Cursor<Vec<u8>>,
     pub(crate) drawings: Vec<DrawingInfo>,
     pub(crate) shapes: Vec<Shape>,
-    shape_id: usize,
+    pub(crate) shape_id: usize,
 }
 
 impl Drawing {
diff --git a/src/worksheet.rs b/src/worksheet.rs
index f5043f6..8bf0f2f 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -16871,6 +16871,10 @@ impl Worksheet {
         self.drawing_rel_ids.clear();
         self.drawing_relationships.clear();
         self.drawing.drawings.clear();
+        self.drawing.shapes.clear();
+        self.drawing.shape_id = 0;
+        self.comments_vml_info.clear();
+        self.buttons_vml_info.clear();
         self.header_footer_vml_info.clear();
         self.hyperlink_relationships.clear();
         self.table_relationships.clear();
-- 
2.43.0


From 38cdf4ef914a190cdada2f8f9f45078675a85512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:03 +0000
Subject: [PATCH 060/117] fix: count buttons in the id blocks of VML drawings

---
 src/workbook.rs  |  6 +++---
 src/worksheet.rs | 11 ++++++-----
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/workbook.rs b/src/workbook.rs
index 52fdabc..1aa5049 100644
--- a/src/workbook.rs
+++ b/src/workbook.rs
@@ -2272,7 +2272,7 @@ impl Workbook {
 
         for worksheet in &mut self.worksheets {
             if worksheet.has_vml {
-                let note_count = worksheet.prepare_vml_objects(vml_data_id, vml_shape_id);
+                let object_count = worksheet.prepare_vml_objects(vml_data_id, vml_shape_id);
                 worksheet.add_vml_drawing_rel_link(vml_drawing_id);
                 vml_drawing_id += 1;
 
@@ -2283,8 +2283,8 @@ impl Workbook {
                 }
 
                 // Each VML should start with a shape id incremented by 1024.
-                vml_data_id += (1024 + note_count) / 1024;
-                vml_shape_id += 1024 * ((1024 + note_count) / 1024);
+                vml_data_id += (1024 + object_count) / 1024;
+                vml_shape_id += 1024 * ((1024 + object_count) / 1024);
             }
 
             if worksheet.has_header_footer_images() {
diff --git a/src/worksheet.rs b/src/worksheet.rs
index 8bf0f2f..c8b3eb0 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -16457,7 +16457,7 @@ impl Worksheet {
     // Convert buttons into VML objects.
     pub(crate) fn prepare_vml_objects(&mut self, vml_data_id: u32, vml_shape_id: u32) -> u32 {
         let mut button_id = 1;
-        let mut note_count = 0;
+        let mut object_count = 0;
 
         // Modify Note author according to worksheet settings.
         for columns in self.notes.values_mut() {
@@ -16499,7 +16499,7 @@ impl Worksheet {
                 // Store the note vml data.
                 self.comments_vml_info.push(vml_info);
 
-                note_count += 1;
+                object_count += 1;
             }
         }
 
@@ -16523,13 +16523,14 @@ impl Worksheet {
             self.buttons_vml_info.push(vml_info);
 
             button_id += 1;
+            object_count += 1;
         }
 
         // The VML o:idmap data id contains a comma separated range when there
-        // is more than one 1024 block of comments, like this: data="1,2".
+        // is more than one 1024 block of objects, like this: data="1,2".
         let mut oid_map = vml_data_id.to_string();
 
-        for i in 0..note_count / 1024 {
+        for i in 0..object_count / 1024 {
             let next_id = vml_data_id + i + 1;
             oid_map = format!("{oid_map},{next_id}");
         }
@@ -16537,7 +16538,7 @@ impl Worksheet {
         self.vml_data_id = oid_map;
         self.vml_shape_id = vml_shape_id;
 
-        note_count
+        object_count
     }
 
     // Store the commentN.xml file linkage to the worksheets rels file.
-- 
2.43.0


From cde0e816ed6b2918d35999cbe72858c4fe5f4bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:03 +0000
Subject: [PATCH 061/117] fix: write the strikethrough property of shape and
 chart fonts

---
 src/chart.rs   | 4 ++++
 src/drawing.rs | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/chart.rs b/src/chart.rs
index 0fbbd17..b975d28 100644
--- a/src/chart.rs
+++ b/src/chart.rs
@@ -5780,6 +5780,10 @@ impl Chart {
             attributes.push(("u", "sng".to_string()));
         }
 
+        if font.strikethrough {
+            attributes.push(("strike", "sngStrike".to_string()));
+        }
+
         if font.has_baseline {
             attributes.push(("baseline", "0".to_string()));
         }
diff --git a/src/drawing.rs b/src/drawing.rs
index 5f07727..44cc511 100644
--- a/src/drawing.rs
+++ b/src/drawing.rs
@@ -1114,6 +1114,10 @@ impl Drawing {
             attributes.push(("u", "sng".to_string()));
         }
 
+        if font.strikethrough {
+            attributes.push(("strike", "sngStrike".to_string()));
+        }
+
         if font.has_baseline {
             attributes.push(("baseline", "0".to_string()));
         }
-- 
2.43.0


From 500c5e80ec599a8aacde3af6985fadcff904714e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:03 +0000
Subject: [PATCH 062/117] fix: accept the upper limits of the trendline order
 and period

---
 src/chart.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/chart.rs b/src/chart.rs
index b975d28..09b98c3 100644
--- a/src/chart.rs
+++ b/src/chart.rs
@@ -2721,7 +2721,7 @@ impl Chart {
 
             // Validate Polynomial trendline range.
             if let ChartTrendlineType::Polynomial(order) = series.trendline.trend_type {
-                if !(2..6).contains(&order) {
+                if !(2..=6).contains(&order) {
                     return Err(XlsxError::ChartError(
                         "Chart series Polynomial trendline order must be in the Excel range 2-6"
                             .to_string(),
@@ -2731,7 +2731,7 @@ impl Chart {
 
             // Validate Moving Average trendline range.
             if let ChartTrendlineType::MovingAverage(period) = series.trendline.trend_type {
-                if !(2..4).contains(&period) {
+                if !(2..=4).contains(&period) {
                     return Err(XlsxError::ChartError(
                         "Chart series Moving Average trendline period must be in the Excel range 2-4"
                             .to_string(),
-- 
2.43.0


From 4f2f1a899f5d061feaafefe747c767f95c2a804e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:03 +0000
Subject: [PATCH 063/117] fix: embedded images lose their own alternative text

---
 src/image.rs     | 6 ++++++
 src/workbook.rs  | 5 +++--
 src/worksheet.rs | 5 +++--
 3 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/image.rs b/src/image.rs
index 2f52c3a..7991dd9 100644
--- a/src/image.rs
+++ b/src/image.rs
@@ -872,6 +872,12 @@ impl Image {
         self.scale_height != 1.0 || self.scale_width != 1.0
     }
 
+    // Get a key for an embedded image. The alternative text is stored with the
+    // image so it is only shared between images with the same properties.
+    pub(crate) fn embedded_key(&self) -> String {
+        format!("{} {} {}", self.hash, self.decorative, self.alt_text)
+    }
+
     // Get the image position string as used by header/footer VML.
     fn vml_position(&self) -> String {
         if self.is_header {
diff --git a/src/workbook.rs b/src/workbook.rs
index 1aa5049..27f3d3b 100644
--- a/src/workbook.rs
+++ b/src/workbook.rs
@@ -2310,12 +2310,13 @@ impl Workbook {
 
             let mut global_embedded_image_ids = vec![];
             for image in &worksheet.embedded_images {
-                let image_id = match image_ids.get(&image.hash) {
+                let image_key = image.embedded_key();
+                let image_id = match image_ids.get(&image_key) {
                     Some(image_id) => *image_id,
                     None => {
                         global_image_id += 1;
                         embedded_images.push(image.clone());
-                        image_ids.insert(image.hash.clone(), global_image_id);
+                        image_ids.insert(image_key, global_image_id);
                         global_image_id
                     }
                 };
diff --git a/src/worksheet.rs b/src/worksheet.rs
index c8b3eb0..7d1723d 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -15449,11 +15449,12 @@ impl Worksheet {
             )));
         }
 
-        let image_id = match self.embedded_image_ids.get(&image.hash) {
+        let image_key = image.embedded_key();
+        let image_id = match self.embedded_image_ids.get(&image_key) {
             Some(image_id) => *image_id,
             None => {
                 let image_id = self.embedded_image_ids.len() as u32;
-                self.embedded_image_ids.insert(image.hash.clone(), image_id);
+                self.embedded_image_ids.insert(image_key, image_id);
                 self.embedded_images.push(image.clone());
                 image_id
             }
-- 
2.43.0


From abc71a60e57612ea270419ab544bb6049f45979e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:03 +0000
Subject: [PATCH 064/117] fix: don't panic on truncated image data

---
 src/image.rs | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/image.rs b/src/image.rs
index 7991dd9..cff62f3 100644
--- a/src/image.rs
+++ b/src/image.rs
@@ -903,6 +903,11 @@ impl Image {
     fn process_image(&mut self) -> Result<(), XlsxError> {
         let data = self.data.clone();
 
+        // Check that there is enough data for the file markers.
+        if data.len() < 4 {
+            return Err(XlsxError::UnknownImageType);
+        }
+
         let png_marker = &data[1..4];
         let jpg_marker = unpack_u16_from_be_bytes(&data, 0);
         let bmp_marker = &data[0..2];
@@ -948,7 +953,7 @@ impl Image {
         // Search through the image data to read the height and width in the
         // IHDR element. Also read the DPI in the pHYs element, if present.
         while offset < data_length {
-            let marker = &data[offset + 4..offset + 8];
+            let marker = data.get(offset + 4..offset + 8).unwrap_or_default();
             let length = unpack_u32_from_be_bytes(data, offset);
 
             // Read the image dimensions.
@@ -959,7 +964,7 @@ impl Image {
 
             // Read the image DPI values.
             if marker == "pHYs".as_bytes() {
-                let units = &data[offset + 16];
+                let units = data.get(offset + 16).unwrap_or(&0);
                 let x_density = unpack_u32_from_be_bytes(data, offset + 8);
                 let y_density = unpack_u32_from_be_bytes(data, offset + 12);
 
@@ -1012,7 +1017,7 @@ impl Image {
 
             // Read the DPI in the 0xFFE0 element.
             if marker == 0xFFE0 {
-                let units = &data[offset + 11];
+                let units = data.get(offset + 11).unwrap_or(&0);
                 let x_density = unpack_u16_from_be_bytes(data, offset + 12);
                 let y_density = unpack_u16_from_be_bytes(data, offset + 14);
 
@@ -1192,18 +1197,25 @@ impl XlsxImageType {
 }
 
 // Some helper functions to extract 2 and 4 byte integers from image data.
+// Unpack an array from image data, or zeros if the data is truncated.
+fn unpack_bytes<const N: usize>(data: &[u8], offset: usize) -> [u8; N] {
+    data.get(offset..offset + N)
+        .and_then(|bytes| bytes.try_into().ok())
+        .unwrap_or([0; N])
+}
+
 fn unpack_u16_from_be_bytes(data: &[u8], offset: usize) -> u16 {
-    u16::from_be_bytes(data[offset..offset + 2].try_into().unwrap())
+    u16::from_be_bytes(unpack_bytes(data, offset))
 }
 
 fn unpack_u16_from_le_bytes(data: &[u8], offset: usize) -> u16 {
-    u16::from_le_bytes(data[offset..offset + 2].try_into().unwrap())
+    u16::from_le_bytes(unpack_bytes(data, offset))
 }
 
 fn unpack_u32_from_be_bytes(data: &[u8], offset: usize) -> u32 {
-    u32::from_be_bytes(data[offset..offset + 4].try_into().unwrap())
+    u32::from_be_bytes(unpack_bytes(data, offset))
 }
 
 fn unpack_u32_from_le_bytes(data: &[u8], offset: usize) -> u32 {
-    u32::from_le_bytes(data[offset..offset + 4].try_into().unwrap())
+    u32::from_le_bytes(unpack_bytes(data, offset))
 }
-- 
2.43.0


From 9aeab042fc0702025c9b5ea7049ae88c44b26cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:23 +0000
Subject: [PATCH 065/117] fix: links of embedded images with a location lead to
 the wrong target

---
 src/url.rs       | 9 +++++++++
 src/worksheet.rs | 2 +-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/url.rs b/src/url.rs
index 4f18854..70e1f30 100644
--- a/src/url.rs
+++ b/src/url.rs
@@ -468,6 +468,15 @@ impl Url {
         Ok(())
     }
 
+    // Convert a link from an object like an image to a link from a cell, which
+    // stores the anchor separately from the relationship link.
+    pub(crate) fn as_cell_link(&self) -> Result<Url, XlsxError> {
+        let mut url = Url::new(&self.original_url).set_tip(&self.tool_tip);
+        url.initialize()?;
+
+        Ok(url)
+    }
+
     // Escape hyperlink string variants.
     pub(crate) fn escape_strings(&mut self) {
         // Escape any URL characters in the URL string.
diff --git a/src/worksheet.rs b/src/worksheet.rs
index 7d1723d..eb7bae7 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -15470,7 +15470,7 @@ impl Worksheet {
 
         // Store the image hyperlink, if any.
         if let Some(url) = &image.url {
-            self.hyperlinks.insert((row, col), url.clone());
+            self.hyperlinks.insert((row, col), url.as_cell_link()?);
         }
 
         // Get the index of the format object, if any.
-- 
2.43.0


From 5a25e40dbd4f4f651b7d1e0624b17ad352d7b9c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:23 +0000
Subject: [PATCH 066/117] fix: escape escape sequences in the text of notes

---
 src/comment.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/comment.rs b/src/comment.rs
index 353f865..766aa1e 100644
--- a/src/comment.rs
+++ b/src/comment.rs
@@ -10,8 +10,8 @@ use std::collections::BTreeMap;
 use std::io::Cursor;
 
 use crate::xmlwriter::{
-    xml_data_element, xml_data_element_only, xml_declaration, xml_empty_tag, xml_empty_tag_only,
-    xml_end_tag, xml_start_tag, xml_start_tag_only,
+    escape_xml_escapes, xml_data_element, xml_data_element_only, xml_declaration, xml_empty_tag,
+    xml_empty_tag_only, xml_end_tag, xml_start_tag, xml_start_tag_only,
 };
 use crate::{utility, ColNum, Note, RowNum};
 
@@ -216,6 +216,8 @@ impl Comment {
             vec![]
         };
 
-        xml_data_element(&mut self.writer, "t", text, &attributes);
+        let text = escape_xml_escapes(text);
+
+        xml_data_element(&mut self.writer, "t", &text, &attributes);
     }
 }
-- 
2.43.0


From a3bfcec94cc7c8e7dd7719e5567605cce60719b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:28 +0000
Subject: [PATCH 067/117] fix: saving an empty workbook adds a worksheet to it

---
 src/workbook.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/workbook.rs b/src/workbook.rs
index 27f3d3b..1a9c5d6 100644
--- a/src/workbook.rs
+++ b/src/workbook.rs
@@ -2034,8 +2034,10 @@ impl Workbook {
     #[allow(clippy::similar_names)]
     #[allow(clippy::too_many_lines)]
     fn save_internal<W: Write + Seek + Send>(&mut self, writer: W) -> Result<(), XlsxError> {
-        // Add a default worksheet if none have been added.
-        if self.worksheets.is_empty() {
+        // Add a default worksheet, for this save only, if none have been added.
+        let use_default_worksheet = self.worksheets.is_empty();
+        let num_worksheets = self.num_worksheets;
+        if use_default_worksheet {
             self.add_worksheet();
         }
 
@@ -2064,6 +2066,11 @@ impl Workbook {
             worksheet.restore_unfiltered_rows(rows);
         }
 
+        if use_default_worksheet {
+            self.worksheets.clear();
+            self.num_worksheets = num_worksheets;
+        }
+
         result
     }
 
-- 
2.43.0


From 528e91a98dcb97551ea2cc225091f25c95ec6d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:56 +0000
Subject: [PATCH 068/117] fix: flush the output at the end of a save

---
 src/packager.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/packager.rs b/src/packager.rs
index ab813d4..1d46588 100644
--- a/src/packager.rs
+++ b/src/packager.rs
@@ -216,7 +216,7 @@ impl<W: Write + Seek + Send> Packager<W> {
         }
 
         // Close the zip file.
-        self.zip.finish()?;
+        self.zip.finish()?.flush()?;
 
         Ok(())
     }
-- 
2.43.0


From 628db43c33866494cccb94621a668acbdf4e2dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:56 +0000
Subject: [PATCH 069/117] fix: panic after an output error

---
 src/packager.rs | 68 ++++++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 64 insertions(+), 4 deletions(-)

diff --git a/src/packager.rs b/src/packager.rs
index 1d46588..bceaf93 100644
--- a/src/packager.rs
+++ b/src/packager.rs
@@ -41,10 +41,12 @@
 // the package and writes them into the xlsx file.
 
 use std::collections::HashSet;
-use std::io::{Seek, Write};
+use std::io::{ErrorKind, Seek, Write};
+
+use std::io::SeekFrom;
 
 #[cfg(feature = "constant_memory")]
-use std::io::{BufReader, SeekFrom};
+use std::io::BufReader;
 
 use std::sync::{Arc, Mutex};
 #[cfg(not(target_arch = "wasm32"))]
@@ -74,9 +76,67 @@ use crate::workbook::Workbook;
 use crate::worksheet::Worksheet;
 use crate::{xmlwriter, Comment, DocProperties, Visible, NUM_IMAGE_FORMATS};
 
+// A wrapper for the output writer that doesn't access it again after an error.
+// Otherwise the zip writer, which tries to complete a failed file when it is
+// dropped, could write or panic with a partially written file.
+struct OutputWriter<W: Write + Seek> {
+    writer: W,
+    has_failed: bool,
+}
+
+impl<W: Write + Seek> OutputWriter<W> {
+    fn new(writer: W) -> OutputWriter<W> {
+        OutputWriter {
+            writer,
+            has_failed: false,
+        }
+    }
+
+    // Run an IO operation, unless a previous one has failed.
+    fn run<T>(
+        &mut self,
+        operation: impl FnOnce(&mut W) -> std::io::Result<T>,
+    ) -> std::io::Result<T> {
+        if self.has_failed {
+            return Err(std::io::Error::new(
+                ErrorKind::BrokenPipe,
+                "previous write error",
+            ));
+        }
+
+        let result = operation(&mut self.writer);
+        if let Err(error) = &result {
+            self.has_failed = error.kind() != ErrorKind::Interrupted;
+        }
+
+        result
+    }
+}
+
+impl<W: Write + Seek> Write for OutputWriter<W> {
+    fn write(&mut self, buffer: &[u8]) -> std::io::Result<usize> {
+        let length = self.run(|writer| writer.write(buffer))?;
+        if length == 0 && !buffer.is_empty() {
+            self.has_failed = true;
+        }
+
+        Ok(length)
+    }
+
+    fn flush(&mut self) -> std::io::Result<()> {
+        self.run(Write::flush)
+    }
+}
+
+impl<W: Write + Seek> Seek for OutputWriter<W> {
+    fn seek(&mut self, position: SeekFrom) -> std::io::Result<u64> {
+        self.run(|writer| writer.seek(position))
+    }
+}
+
 // Packager struct to assemble the xlsx file.
 pub struct Packager<W: Write + Seek> {
-    zip: ZipWriter<W>,
+    zip: ZipWriter<OutputWriter<W>>,
     zip_options: SimpleFileOptions,
     zip_options_for_binary_files: SimpleFileOptions,
 }
@@ -88,7 +148,7 @@ impl<W: Write + Seek + Send> Packager<W> {
 
     // Create a new Packager struct.
     pub(crate) fn new(writer: W, use_large_file: bool) -> Packager<W> {
-        let zip = zip::ZipWriter::new(writer);
+        let zip = zip::ZipWriter::new(OutputWriter::new(writer));
 
         let zip_options = SimpleFileOptions::default()
             .compression_method(zip::CompressionMethod::Deflated)
-- 
2.43.0


From 79895c0d90b46acd379a91f56e053a882b41b0ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:16 +0000
Subject: [PATCH 070/117] fix: number extended conditional formats like the
 standard ones

---
 src/worksheet.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index eb7bae7..e852f7f 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -18064,12 +18064,16 @@ impl Worksheet {
         let mut guid_index = 1;
         let mut priority = 1;
 
-        for (cell_range, conditionals_for_range) in &self.conditional_formats {
+        // Use the same order, and numbering, as the standard conditional formats.
+        for cell_range in &self.conditional_format_order {
+            let conditionals_for_range = self.conditional_formats.get(cell_range).unwrap();
+
             // Only create an entry if range contains a x14 style conditional.
             if !conditionals_for_range
                 .iter()
                 .any(|rule| rule.has_x14_extensions())
             {
+                priority += conditionals_for_range.len() as u32;
                 continue;
             }
 
-- 
2.43.0


From 6247d49921443152294c3ab7555805410ffa5b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:16 +0000
Subject: [PATCH 071/117] fix: close the extension of conditional formats
 before sparklines

---
 src/worksheet.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index e852f7f..654bc88 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -19778,6 +19778,7 @@ impl Worksheet {
             ];
             xml_start_tag(&mut self.writer, "ext", &attributes);
             self.write_conditional_formattings();
+            xml_end_tag(&mut self.writer, "ext");
         }
 
         // Write the x14:sparklineGroups element.
@@ -19791,10 +19792,9 @@ impl Worksheet {
             ];
             xml_start_tag(&mut self.writer, "ext", &attributes);
             self.write_sparkline_groups();
+            xml_end_tag(&mut self.writer, "ext");
         }
 
-        xml_end_tag(&mut self.writer, "ext");
-
         xml_end_tag(&mut self.writer, "extLst");
     }
 
-- 
2.43.0


From 2efa9c237d9cef77b00a1cdffe945d3c956a94fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:16 +0000
Subject: [PATCH 072/117] fix: formulas of text conditional formats with quotes
 or Unicode text

---
 src/conditional_format.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/conditional_format.rs b/src/conditional_format.rs
index 3fa5a8a..acecf47 100644
--- a/src/conditional_format.rs
+++ b/src/conditional_format.rs
@@ -3002,23 +3002,29 @@ impl ConditionalFormatText {
         let mut attributes = vec![];
         let anchor = &range_to_anchor(range);
 
+        // Get the text as it is written in a formula and its length in Excel.
+        let (ConditionalFormatTextRule::Contains(text)
+        | ConditionalFormatTextRule::DoesNotContain(text)
+        | ConditionalFormatTextRule::BeginsWith(text)
+        | ConditionalFormatTextRule::EndsWith(text)) = rule;
+        let length = text.encode_utf16().count();
+        let text = text.replace('"', "\"\"");
+
         // Set the rule attributes based on the criteria.
         let formula = match rule {
-            ConditionalFormatTextRule::Contains(text) => {
+            ConditionalFormatTextRule::Contains(_) => {
                 attributes.push(("type", "containsText".to_string()));
                 format!(r#"NOT(ISERROR(SEARCH("{text}",{anchor})))"#)
             }
-            ConditionalFormatTextRule::DoesNotContain(text) => {
+            ConditionalFormatTextRule::DoesNotContain(_) => {
                 attributes.push(("type", "notContainsText".to_string()));
                 format!(r#"ISERROR(SEARCH("{text}",{anchor}))"#)
             }
-            ConditionalFormatTextRule::BeginsWith(text) => {
-                let length = text.len();
+            ConditionalFormatTextRule::BeginsWith(_) => {
                 attributes.push(("type", "beginsWith".to_string()));
                 format!(r#"LEFT({anchor},{length})="{text}""#)
             }
-            ConditionalFormatTextRule::EndsWith(text) => {
-                let length = text.len();
+            ConditionalFormatTextRule::EndsWith(_) => {
                 attributes.push(("type", "endsWith".to_string()));
                 format!(r#"RIGHT({anchor},{length})="{text}""#)
             }
-- 
2.43.0


From 5812ea34de385491de9f984461f626509798b665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:16 +0000
Subject: [PATCH 073/117] fix: write the options of extended icon sets

---
 src/conditional_format.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/conditional_format.rs b/src/conditional_format.rs
index acecf47..41e53d7 100644
--- a/src/conditional_format.rs
+++ b/src/conditional_format.rs
@@ -6155,12 +6155,18 @@ impl ConditionalFormatIconSet {
     // Return an extended x14 rule for conditional formats that support it.
     pub(crate) fn x14_rule(&self, priority: u32, guid: &str) -> String {
         let mut writer = Cursor::new(Vec::with_capacity(2048));
-        let attributes = [
+        let mut attributes = vec![
             ("type", "iconSet".to_string()),
             ("priority", priority.to_string()),
-            ("id", guid.to_string()),
         ];
 
+        // Set the "Stop if True" property.
+        if self.stop_if_true {
+            attributes.push(("stopIfTrue", "1".to_string()));
+        }
+
+        attributes.push(("id", guid.to_string()));
+
         // Write the rule.
         xml_start_tag(&mut writer, "x14:cfRule", &attributes);
 
@@ -6170,6 +6176,14 @@ impl ConditionalFormatIconSet {
             attributes.push(("iconSet", self.icon_type.to_string()));
         }
 
+        if self.icon_only {
+            attributes.push(("showValue", "0".to_string()));
+        }
+
+        if self.is_reversed {
+            attributes.push(("reverse", "1".to_string()));
+        }
+
         if self.has_custom_icons {
             attributes.push(("custom", "1".to_string()));
         }
-- 
2.43.0


From 3e0541ded2405cad3e97cfd0c8aaa01ba86f0870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:16 +0000
Subject: [PATCH 074/117] fix: write the rules of extended icon sets

---
 src/conditional_format.rs | 47 ++++++++++++++-------------------------
 1 file changed, 17 insertions(+), 30 deletions(-)

diff --git a/src/conditional_format.rs b/src/conditional_format.rs
index 41e53d7..abc8c74 100644
--- a/src/conditional_format.rs
+++ b/src/conditional_format.rs
@@ -6252,38 +6252,25 @@ impl ConditionalFormatIconSet {
 
     // Write the <x14:cfvo> element.
     fn write_x14_type(writer: &mut Cursor<Vec<u8>>, icon: &ConditionalFormatCustomIcon) {
-        let mut attributes = vec![];
-        let value = icon.value.value.as_ref();
+        let rule_type = match icon.rule_type {
+            ConditionalFormatType::Lowest
+            | ConditionalFormatType::Highest
+            | ConditionalFormatType::Automatic
+            | ConditionalFormatType::Percent => "percent",
+            ConditionalFormatType::Number => "num",
+            ConditionalFormatType::Formula => "formula",
+            ConditionalFormatType::Percentile => "percentile",
+        };
 
-        match icon.rule_type {
-            ConditionalFormatType::Automatic
-            | ConditionalFormatType::Lowest
-            | ConditionalFormatType::Highest => {}
-            ConditionalFormatType::Number => {
-                attributes.push(("type", "num".to_string()));
-                xml_start_tag(writer, "x14:cfvo", &attributes);
-                xml_data_element_only(writer, "xm:f", value);
-                xml_end_tag(writer, "x14:cfvo");
-            }
-            ConditionalFormatType::Percent => {
-                attributes.push(("type", "percent".to_string()));
-                xml_start_tag(writer, "x14:cfvo", &attributes);
-                xml_data_element_only(writer, "xm:f", value);
-                xml_end_tag(writer, "x14:cfvo");
-            }
-            ConditionalFormatType::Formula => {
-                attributes.push(("type", "formula".to_string()));
-                xml_start_tag(writer, "x14:cfvo", &attributes);
-                xml_data_element_only(writer, "xm:f", value);
-                xml_end_tag(writer, "x14:cfvo");
-            }
-            ConditionalFormatType::Percentile => {
-                attributes.push(("type", "percentile".to_string()));
-                xml_start_tag(writer, "x14:cfvo", &attributes);
-                xml_data_element_only(writer, "xm:f", value);
-                xml_end_tag(writer, "x14:cfvo");
-            }
+        let mut attributes = vec![("type", rule_type.to_string())];
+
+        if icon.greater_than {
+            attributes.push(("gte", "0".to_string()));
         }
+
+        xml_start_tag(writer, "x14:cfvo", &attributes);
+        xml_data_element_only(writer, "xm:f", &icon.value.value);
+        xml_end_tag(writer, "x14:cfvo");
     }
 }
 
-- 
2.43.0


From 495544618572902fed18140fd078b5583d93c497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:16 +0000
Subject: [PATCH 075/117] fix: compare the border colors of data bars with each
 other

---
 src/conditional_format.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/conditional_format.rs b/src/conditional_format.rs
index abc8c74..f71e7b2 100644
--- a/src/conditional_format.rs
+++ b/src/conditional_format.rs
@@ -5418,7 +5418,7 @@ impl ConditionalFormatDataBar {
             );
         }
 
-        if !self.border_off && self.fill_color != self.negative_border_color {
+        if !self.border_off && self.border_color != self.negative_border_color {
             Self::write_color(
                 &mut writer,
                 "x14:negativeBorderColor",
@@ -5465,7 +5465,7 @@ impl ConditionalFormatDataBar {
             attributes.push(("negativeBarColorSameAsPositive", "1".to_string()));
         }
 
-        if !data_bar.border_off && data_bar.fill_color != data_bar.negative_border_color {
+        if !data_bar.border_off && data_bar.border_color != data_bar.negative_border_color {
             attributes.push(("negativeBarBorderColorSameAsPositive", "0".to_string()));
         }
 
-- 
2.43.0


From 74d4ef1ec2ba40f2c14633390e94a43c2e60e95c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:16 +0000
Subject: [PATCH 076/117] fix: quote empty strings in cell conditional formats

---
 src/conditional_format.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/conditional_format.rs b/src/conditional_format.rs
index f71e7b2..af6e9ed 100644
--- a/src/conditional_format.rs
+++ b/src/conditional_format.rs
@@ -6621,12 +6621,12 @@ impl ConditionalFormatValue {
     // Cell formats are quoted.
     pub(crate) fn quote_string(&mut self) {
         // Only quote string values.
-        if !self.is_string || self.value.is_empty() {
+        if !self.is_string {
             return;
         }
 
         // Ignore already quoted strings.
-        if self.value.starts_with('"') && self.value.ends_with('"') {
+        if self.value.len() > 1 && self.value.starts_with('"') && self.value.ends_with('"') {
             return;
         }
 
-- 
2.43.0


From a320407062feeebed354b148da2de2278d2cbacf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:16 +0000
Subject: [PATCH 077/117] fix: reject sparkline groups in a 2D range

---
 src/worksheet.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 654bc88..067b5fe 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -9475,6 +9475,13 @@ impl Worksheet {
             )));
         }
 
+        // Check that the group range is 1D.
+        if first_row != last_row && first_col != last_col {
+            return Err(XlsxError::SparklineError(format!(
+                "Sparkline group range '({first_row}, {first_col}, {last_row}, {last_col})' must be a 1D range"
+            )));
+        }
+
         // Check that the group data range matches 1 dimension of the sparkline
         // data range.
         let row_range = (last_row - first_row + 1) as usize;
-- 
2.43.0


From b4e84c75257935629c3065dbb13417fc4cc8938b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:16 +0000
Subject: [PATCH 078/117] fix: keep the data of sparkline groups inside the
 data range

---
 src/sparkline.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/sparkline.rs b/src/sparkline.rs
index 762efd7..5567d84 100644
--- a/src/sparkline.rs
+++ b/src/sparkline.rs
@@ -1398,6 +1398,19 @@ impl Sparkline {
         last_col: ColNum,
     ) {
         let cell_row_order = last_col - first_col == 0;
+        // Use the dimension of the data that matches the number of sparklines,
+        // if the required one doesn't.
+        let num_cells = std::cmp::max(last_row - first_row, u32::from(last_col - first_col)) + 1;
+        let (num_rows, num_cols) = self.data_range.number_of_range_points();
+        let num_points = if self.data_row_order {
+            num_rows
+        } else {
+            num_cols
+        };
+        if num_cells as usize != num_points {
+            self.data_row_order = !self.data_row_order;
+        }
+
         self.data_range.set_baseline(self.data_row_order);
 
         if cell_row_order {
-- 
2.43.0


From 410fe01b980363714181147db802136de98542b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:16 +0000
Subject: [PATCH 079/117] fix: check the date range of sparklines

---
 src/worksheet.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 067b5fe..c47a62d 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -9325,6 +9325,9 @@ impl Worksheet {
 
         // Check that the sparkline range is valid.
         sparkline.data_range.validate()?;
+        if sparkline.date_range.has_data() {
+            sparkline.date_range.validate()?;
+        }
 
         // Check that the sparkline range is 1D.
         if !sparkline.data_range.is_1d() {
@@ -9466,6 +9469,9 @@ impl Worksheet {
 
         // Check that the sparkline range is valid.
         sparkline.data_range.validate()?;
+        if sparkline.date_range.has_data() {
+            sparkline.date_range.validate()?;
+        }
 
         // Check that the sparkline range is 2D.
         if sparkline.data_range.is_1d() {
-- 
2.43.0


From eee41c43407c53b4b1444d09dc5b8350ccee2ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:42 +0000
Subject: [PATCH 080/117] fix: theme colors in color scales and data bars are
 lost

---
 src/conditional_format.rs | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/conditional_format.rs b/src/conditional_format.rs
index af6e9ed..84d476a 100644
--- a/src/conditional_format.rs
+++ b/src/conditional_format.rs
@@ -3777,9 +3777,7 @@ impl ConditionalFormat2ColorScale {
 
     // Write the <color> element.
     fn write_color(writer: &mut Cursor<Vec<u8>>, color: Color) {
-        let attributes = [("rgb", color.argb_hex_value())];
-
-        xml_empty_tag(writer, "color", &attributes);
+        xml_empty_tag(writer, "color", &color_attributes(color));
     }
 
     // Return an extended x14 rule for conditional formats that support it.
@@ -4314,9 +4312,7 @@ impl ConditionalFormat3ColorScale {
 
     // Write the <color> element.
     fn write_color(writer: &mut Cursor<Vec<u8>>, color: Color) {
-        let attributes = [("rgb", color.argb_hex_value())];
-
-        xml_empty_tag(writer, "color", &attributes);
+        xml_empty_tag(writer, "color", &color_attributes(color));
     }
 
     // Return an extended x14 rule for conditional formats that support it.
@@ -5369,9 +5365,7 @@ impl ConditionalFormatDataBar {
 
     // Write the <color> element.
     fn write_color(writer: &mut Cursor<Vec<u8>>, color_tag: &str, color: Color) {
-        let attributes = [("rgb", color.argb_hex_value())];
-
-        xml_empty_tag(writer, color_tag, &attributes);
+        xml_empty_tag(writer, color_tag, &color_attributes(color));
     }
 
     // Write the <extLst> element.
@@ -7545,6 +7539,14 @@ impl ConditionalFormatCell {
 // Common methods.
 // -----------------------------------------------------------------------
 
+// The attributes of a rule color. Only theme colors aren't stored as RGB colors.
+fn color_attributes(color: Color) -> Vec<(&'static str, String)> {
+    match color {
+        Color::Theme(_, _) => color.attributes(),
+        _ => vec![("rgb", color.argb_hex_value())],
+    }
+}
+
 // Extract the first cell from a range (potentially a multi range).
 fn range_to_anchor(range: &str) -> &str {
     let mut anchor = range;
-- 
2.43.0


From b8840eced1e74da7dcbd65c7af8bfd91041375f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:39 +0000
Subject: [PATCH 081/117] fix: keep negative border colors that differ from the
 fill of data bars

---
 src/conditional_format.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/conditional_format.rs b/src/conditional_format.rs
index 84d476a..ccced9d 100644
--- a/src/conditional_format.rs
+++ b/src/conditional_format.rs
@@ -5412,7 +5412,7 @@ impl ConditionalFormatDataBar {
             );
         }
 
-        if !self.border_off && self.border_color != self.negative_border_color {
+        if self.has_negative_border() {
             Self::write_color(
                 &mut writer,
                 "x14:negativeBorderColor",
@@ -5430,6 +5430,14 @@ impl ConditionalFormatDataBar {
         cursor_to_string(&writer)
     }
 
+    // Check if the negative border color must be written. It defaults to the
+    // border color but Excel also writes it if it differs from the fill color.
+    fn has_negative_border(&self) -> bool {
+        !self.border_off
+            && (self.border_color != self.negative_border_color
+                || self.fill_color != self.negative_border_color)
+    }
+
     // Write the <x14:dataBar> element.
     fn write_data_bar(writer: &mut Cursor<Vec<u8>>, data_bar: ConditionalFormatDataBar) {
         let mut attributes = vec![
@@ -5459,7 +5467,7 @@ impl ConditionalFormatDataBar {
             attributes.push(("negativeBarColorSameAsPositive", "1".to_string()));
         }
 
-        if !data_bar.border_off && data_bar.border_color != data_bar.negative_border_color {
+        if data_bar.has_negative_border() {
             attributes.push(("negativeBarBorderColorSameAsPositive", "0".to_string()));
         }
 
-- 
2.43.0


From 5ae572776f80f81f39b3552e72ea8fb8d7edf917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:42 +0000
Subject: [PATCH 082/117] fix: chart caches of 2D ranges with empty rows have
 one point per cell

---
 src/worksheet.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index c47a62d..b57e303 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -17025,7 +17025,11 @@ impl Worksheet {
                         }
                     }
                 }
-                None => data.push(String::new()),
+                None => {
+                    for _ in first_col..=last_col {
+                        data.push(String::new());
+                    }
+                }
             }
         }
 
-- 
2.43.0


From 3e3fc2ab19529280c3c982a197f4d834bf6a868e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:43 +0000
Subject: [PATCH 083/117] fix: add rich strings and formula results to chart
 caches

---
 src/worksheet.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index b57e303..e1ff152 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -17002,10 +17002,25 @@ impl Worksheet {
                     for col_num in first_col..=last_col {
                         match columns.get(&col_num) {
                             Some(cell) => match cell {
-                                CellType::String { string, .. } => {
+                                CellType::String { string, .. }
+                                | CellType::InlineString { string, .. }
+                                | CellType::RichString {
+                                    raw_string: string, ..
+                                } => {
                                     data.push(string.to_string());
                                     cache.cache_type = ChartRangeCacheDataType::String;
                                 }
+                                CellType::Formula { result, .. }
+                                | CellType::ArrayFormula { result, .. } => {
+                                    let is_number = result.parse::<f64>().is_ok_and(f64::is_finite);
+
+                                    if !is_number && !result.is_empty() {
+                                        cache.cache_type = ChartRangeCacheDataType::String;
+                                    } else if cache.cache_type != ChartRangeCacheDataType::String {
+                                        cache.cache_type = ChartRangeCacheDataType::Number;
+                                    }
+                                    data.push(result.to_string());
+                                }
                                 CellType::Number { number, .. } => {
                                     if cache.cache_type != ChartRangeCacheDataType::String {
                                         cache.cache_type = ChartRangeCacheDataType::Number;
-- 
2.43.0


From de534f8dbf9d6d9cde43080020f0548dd6d53e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:43 +0000
Subject: [PATCH 084/117] fix: add secondary axis titles to the chart caches

---
 src/workbook.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/workbook.rs b/src/workbook.rs
index 1a9c5d6..042fd0f 100644
--- a/src/workbook.rs
+++ b/src/workbook.rs
@@ -2489,6 +2489,8 @@ impl Workbook {
         Self::insert_to_chart_cache(&chart.title.range, chart_caches);
         Self::insert_to_chart_cache(&chart.x_axis.title.range, chart_caches);
         Self::insert_to_chart_cache(&chart.y_axis.title.range, chart_caches);
+        Self::insert_to_chart_cache(&chart.x2_axis.title.range, chart_caches);
+        Self::insert_to_chart_cache(&chart.y2_axis.title.range, chart_caches);
 
         for series in &chart.series {
             Self::insert_to_chart_cache(&series.title.range, chart_caches);
@@ -2519,6 +2521,8 @@ impl Workbook {
         Self::update_range_cache(&mut chart.title.range, chart_caches);
         Self::update_range_cache(&mut chart.x_axis.title.range, chart_caches);
         Self::update_range_cache(&mut chart.y_axis.title.range, chart_caches);
+        Self::update_range_cache(&mut chart.x2_axis.title.range, chart_caches);
+        Self::update_range_cache(&mut chart.y2_axis.title.range, chart_caches);
 
         for series in &mut chart.series {
             Self::update_range_cache(&mut series.title.range, chart_caches);
-- 
2.43.0


From 156f0af67c698e01dc81e56ac56a8b13bb69b2c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:43 +0000
Subject: [PATCH 085/117] fix: strings like 'inf' and 'nan' in numeric chart
 caches

---
 src/chart.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/chart.rs b/src/chart.rs
index 09b98c3..f549c26 100644
--- a/src/chart.rs
+++ b/src/chart.rs
@@ -4123,10 +4123,10 @@ impl Chart {
             if !value.is_empty() {
                 // Non numeric values in value/number caches are treated as zero
                 // by Excel.
-                if value.parse::<f64>().is_err() {
-                    self.write_pt(index, "0");
-                } else {
+                if value.parse::<f64>().is_ok_and(f64::is_finite) {
                     self.write_pt(index, value);
+                } else {
+                    self.write_pt(index, "0");
                 }
             }
         }
-- 
2.43.0


From a6198ad37c651c007627d27c8ee48bf2df82f7bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:43 +0000
Subject: [PATCH 086/117] fix: validate the series of combined charts

---
 src/chart.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/chart.rs b/src/chart.rs
index f549c26..832ab73 100644
--- a/src/chart.rs
+++ b/src/chart.rs
@@ -2740,6 +2740,11 @@ impl Chart {
             }
         }
 
+        // Validate the series of the combined chart, if any.
+        if let Some(combined_chart) = &mut self.combined_chart {
+            combined_chart.validate()?;
+        }
+
         Ok(self)
     }
 
-- 
2.43.0


From f1cb28784bd11e618a16f767035ccca25b2a470e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:43 +0000
Subject: [PATCH 087/117] fix: gap and overlap of series apply to the other
 axis group

---
 src/chart.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/chart.rs b/src/chart.rs
index 832ab73..3465973 100644
--- a/src/chart.rs
+++ b/src/chart.rs
@@ -3171,6 +3171,9 @@ impl Chart {
             return;
         }
 
+        // The gap and overlap of the series only apply to this axis group.
+        let (gap, overlap) = (self.gap, self.overlap);
+
         xml_start_tag_only(&mut self.writer, "c:barChart");
 
         // Write the c:barDir element.
@@ -3194,6 +3197,8 @@ impl Chart {
         self.write_ax_ids(primary_axis);
 
         xml_end_tag(&mut self.writer, "c:barChart");
+
+        (self.gap, self.overlap) = (gap, overlap);
     }
 
     // Write the <c:barChart> element for Column charts.
@@ -3204,6 +3209,9 @@ impl Chart {
             return;
         }
 
+        // The gap and overlap of the series only apply to this axis group.
+        let (gap, overlap) = (self.gap, self.overlap);
+
         xml_start_tag_only(&mut self.writer, "c:barChart");
 
         // Write the c:barDir element.
@@ -3227,6 +3235,8 @@ impl Chart {
         self.write_ax_ids(primary_axis);
 
         xml_end_tag(&mut self.writer, "c:barChart");
+
+        (self.gap, self.overlap) = (gap, overlap);
     }
 
     // Write the <c:doughnutChart> element for Column charts.
-- 
2.43.0


From 8f4eaac9125498a652506dd346969e6b734238a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:43 +0000
Subject: [PATCH 088/117] fix: setting a range for a chart title that had a
 text

---
 src/chart.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/chart.rs b/src/chart.rs
index 3465973..a32f3c3 100644
--- a/src/chart.rs
+++ b/src/chart.rs
@@ -8879,6 +8879,8 @@ impl ChartTitle {
         // just a simple string title.
         if !self.range.has_data() {
             self.name.clone_from(&self.range.range_string);
+        } else {
+            self.name.clear();
         }
 
         self
-- 
2.43.0


From 75d763bb26d70ebb6fd707b0e96237357bfe61c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:43 +0000
Subject: [PATCH 089/117] fix: wrong series deleted from the legend of charts
 with secondary axes

---
 src/chart.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/chart.rs b/src/chart.rs
index a32f3c3..8ff60d3 100644
--- a/src/chart.rs
+++ b/src/chart.rs
@@ -2848,8 +2848,17 @@ impl Chart {
         let mut deleted_entries = vec![];
         let mut index = 0;
 
+        // Get the series in the order that they are written: primary axis
+        // series before secondary axis series, and combined charts last.
+        let mut all_series: Vec<&ChartSeries> = vec![];
+        let combined_series = self.combined_chart.as_ref().map(|chart| &chart.series);
+        for series in std::iter::once(&self.series).chain(combined_series) {
+            all_series.extend(series.iter().filter(|series| !series.secondary_axis));
+            all_series.extend(series.iter().filter(|series| series.secondary_axis));
+        }
+
         // Check for deleted series in legend.
-        for series in &self.series {
+        for series in &all_series {
             if series.delete_from_legend {
                 deleted_entries.push(index);
             }
@@ -2859,7 +2868,7 @@ impl Chart {
 
         // Check for deleted trendlines in legend. These are indexed after the
         // series they belong to.
-        for series in &self.series {
+        for series in &all_series {
             if series.trendline.trend_type != ChartTrendlineType::None {
                 if series.trendline.delete_from_legend {
                     deleted_entries.push(index);
-- 
2.43.0


From f0828bcbd39c92f89783c82874db528fbb3616db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:33 +0000
Subject: [PATCH 090/117] fix: order of the marker and the formatting of
 scatter chart series

---
 src/chart.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/chart.rs b/src/chart.rs
index 8ff60d3..fc8e955 100644
--- a/src/chart.rs
+++ b/src/chart.rs
@@ -3905,13 +3905,6 @@ impl Chart {
 
             self.write_series_title(&series.title);
 
-            if let Some(marker) = &series.marker {
-                if !marker.automatic {
-                    // Write the c:marker element.
-                    self.write_marker(marker);
-                }
-            }
-
             // Add default scatter line formatting to the series data unless it
             // has already been specified by the user.
             if self.chart_type == ChartType::Scatter && series.format.line.is_none() {
@@ -3923,6 +3916,13 @@ impl Chart {
             // Write the c:spPr formatting element.
             self.write_sp_pr(&series.format);
 
+            if let Some(marker) = &series.marker {
+                if !marker.automatic {
+                    // Write the c:marker element.
+                    self.write_marker(marker);
+                }
+            }
+
             // Write the point formatting for the series.
             if !series.points.is_empty() {
                 self.write_d_pt(&series.points, max_points);
-- 
2.43.0


From ae72e804c3b2d3ca1f08e5770ee1c77e83ffda6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:33 +0000
Subject: [PATCH 091/117] fix: order of the overlay and the formatting of chart
 legends

---
 src/chart.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/chart.rs b/src/chart.rs
index fc8e955..1db5ca9 100644
--- a/src/chart.rs
+++ b/src/chart.rs
@@ -4894,14 +4894,14 @@ impl Chart {
         // Write the c:layout element.
         self.write_layout(&self.legend.layout.clone());
 
-        // Write the c:spPr formatting element.
-        self.write_sp_pr(&self.legend.format.clone());
-
         // Write the c:overlay element.
         if self.legend.has_overlay {
             self.write_overlay();
         }
 
+        // Write the c:spPr formatting element.
+        self.write_sp_pr(&self.legend.format.clone());
+
         // Pie/Doughnut charts set the "rtl" flag to "0" in the legend font even
         // though "0" is implied. To match Excel output we set it if it hasn't
         // been set by the user.
-- 
2.43.0


From d9e7e421855a8ef868e28efc31b32dd462dbe6f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:33 +0000
Subject: [PATCH 092/117] fix: order of the smooth and extension elements of
 chart series

---
 src/chart.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/chart.rs b/src/chart.rs
index 1db5ca9..9e22d33 100644
--- a/src/chart.rs
+++ b/src/chart.rs
@@ -3870,11 +3870,6 @@ impl Chart {
             // Write the c:val element.
             self.write_val(&series.value_range);
 
-            if !series.inverted_color.is_auto_or_default() {
-                // Write the c:extLst element for the inverted fill color.
-                self.write_extension_list(series.inverted_color);
-            }
-
             // Write the c:smooth element.
             if self.chart_group_type == ChartType::Line {
                 if let Some(smooth) = series.smooth {
@@ -3884,6 +3879,11 @@ impl Chart {
                 }
             }
 
+            if !series.inverted_color.is_auto_or_default() {
+                // Write the c:extLst element for the inverted fill color.
+                self.write_extension_list(series.inverted_color);
+            }
+
             self.series_index += 1;
 
             xml_end_tag(&mut self.writer, "c:ser");
-- 
2.43.0


From 237847a7432eb62816b238e80c831752093c7604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:33 +0000
Subject: [PATCH 093/117] fix: keep the format and marker of series added with
 push_series()

---
 src/chart.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/chart.rs b/src/chart.rs
index 9e22d33..7028e0b 100644
--- a/src/chart.rs
+++ b/src/chart.rs
@@ -1255,18 +1255,19 @@ impl Chart {
         let mut series = series.clone();
 
         // The default Scatter chart has a hidden line with a standard width.
-        if self.chart_type == ChartType::Scatter {
+        if self.chart_type == ChartType::Scatter && !series.format.has_formatting() {
             series.set_format(
                 ChartFormat::new().set_line(ChartLine::new().set_width(2.25).set_hidden(true)),
             );
         }
 
         // Turn off markers for chart types that can have markers but don't have
-        // them by default.
-        if self.chart_type == ChartType::ScatterStraight
-            || self.chart_type == ChartType::ScatterSmooth
-            || self.chart_group_type == ChartType::Line
-            || self.chart_type == ChartType::Radar
+        // them by default, unless the user has set them.
+        if series.marker.is_none()
+            && (self.chart_type == ChartType::ScatterStraight
+                || self.chart_type == ChartType::ScatterSmooth
+                || self.chart_group_type == ChartType::Line
+                || self.chart_type == ChartType::Radar)
         {
             series.marker = Some(ChartMarker::new().set_none().clone());
         }
-- 
2.43.0


From 7e5bec7b980ccd374924e54adb66d04609390107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:03 +0000
Subject: [PATCH 094/117] fix: setting a type for a chart marker that was
 turned off

---
 src/chart.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/chart.rs b/src/chart.rs
index 7028e0b..37c5899 100644
--- a/src/chart.rs
+++ b/src/chart.rs
@@ -9235,6 +9235,7 @@ impl ChartMarker {
     ///
     pub fn set_automatic(&mut self) -> &mut ChartMarker {
         self.automatic = true;
+        self.none = false;
         self
     }
 
@@ -9245,6 +9246,7 @@ impl ChartMarker {
     ///
     pub fn set_none(&mut self) -> &mut ChartMarker {
         self.none = true;
+        self.automatic = false;
         self
     }
 
@@ -9306,6 +9308,7 @@ impl ChartMarker {
     pub fn set_type(&mut self, marker_type: ChartMarkerType) -> &mut ChartMarker {
         self.marker_type = Some(marker_type);
         self.automatic = false;
+        self.none = false;
         self
     }
 
-- 
2.43.0


From 841ed0f4d9e5095a671d849f59c2acac0f542fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:03 +0000
Subject: [PATCH 095/117] fix: font of chart titles from a cell that also have
 a format

---
 src/chart.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/chart.rs b/src/chart.rs
index 37c5899..4203f4c 100644
--- a/src/chart.rs
+++ b/src/chart.rs
@@ -6265,11 +6265,11 @@ impl Chart {
         if title.format.has_formatting() {
             // Write the c:spPr formatting element.
             self.write_sp_pr(&title.format.clone());
-        } else {
-            // Write the c:txPr element.
-            self.write_tx_pr(&title.font, title.is_horizontal);
         }
 
+        // Write the c:txPr element.
+        self.write_tx_pr(&title.font, title.is_horizontal);
+
         xml_end_tag(&mut self.writer, "c:title");
     }
 
-- 
2.43.0


From 23ae074c14b5cad94ed9d3e465ca18cbc9181c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:03 +0000
Subject: [PATCH 096/117] fix: order of the elements of custom data labels with
 a font

---
 src/chart.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/chart.rs b/src/chart.rs
index 4203f4c..30484cf 100644
--- a/src/chart.rs
+++ b/src/chart.rs
@@ -5068,15 +5068,6 @@ impl Chart {
                 // Write the c:delete element.
                 self.write_delete();
             } else {
-                // Add empty "c:spPr", as required, for Excel compatibility.
-                if !data_label.format.has_formatting() {
-                    if let Some(font) = &data_label.font {
-                        if font.color.is_auto_or_default() {
-                            xml_empty_tag_only(&mut self.writer, "c:spPr");
-                        }
-                    }
-                }
-
                 // If a custom point has a font then it may need to be applied
                 // to the title and/or the label.
                 let mut data_label = data_label.clone();
@@ -5130,6 +5121,15 @@ impl Chart {
         // Write the c:spPr formatting element.
         self.write_sp_pr(&data_label.format);
 
+        // Add empty "c:spPr", as required, for Excel compatibility.
+        if data_label.is_custom && !data_label.format.has_formatting() {
+            if let Some(font) = &data_label.font {
+                if font.color.is_auto_or_default() {
+                    xml_empty_tag_only(&mut self.writer, "c:spPr");
+                }
+            }
+        }
+
         if let Some(font) = &data_label.font {
             // Write the c:txPr element.
             self.write_tx_pr(&font.clone(), false);
-- 
2.43.0


From d3e68a57e85417a43507b5add5e7c68ccfa4fa6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:36 +0000
Subject: [PATCH 097/117] fix: don't add a default font to chart titles from a
 cell with a format

---
 src/chart.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/chart.rs b/src/chart.rs
index 30484cf..81fbb27 100644
--- a/src/chart.rs
+++ b/src/chart.rs
@@ -6267,8 +6267,10 @@ impl Chart {
             self.write_sp_pr(&title.format.clone());
         }
 
-        // Write the c:txPr element.
-        self.write_tx_pr(&title.font, title.is_horizontal);
+        if !title.format.has_formatting() || title.font != ChartFont::default() {
+            // Write the c:txPr element.
+            self.write_tx_pr(&title.font, title.is_horizontal);
+        }
 
         xml_end_tag(&mut self.writer, "c:title");
     }
-- 
2.43.0


From 4e1cad038e57cbd4e41295a2674885d8eea44c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:44 +0000
Subject: [PATCH 098/117] fix: chart markers with a size or format but no type

---
 src/chart.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/chart.rs b/src/chart.rs
index 81fbb27..5457981 100644
--- a/src/chart.rs
+++ b/src/chart.rs
@@ -5013,7 +5013,9 @@ impl Chart {
         xml_start_tag_only(&mut self.writer, "c:marker");
 
         // Write the c:symbol element.
-        self.write_symbol(marker);
+        if marker.marker_type.is_some() || marker.none {
+            self.write_symbol(marker);
+        }
 
         if marker.size != 0 {
             // Write the c:size element.
-- 
2.43.0


From d16a137151ce100ddea8eef48f83d6da493d5c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:35 +0000
Subject: [PATCH 099/117] fix: non-integer sizes of chart fonts with a fraction

---
 src/chart.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chart.rs b/src/chart.rs
index 5457981..c495ca0 100644
--- a/src/chart.rs
+++ b/src/chart.rs
@@ -15495,7 +15495,7 @@ impl ChartFont {
     where
         T: Into<f64>,
     {
-        self.size = font_size.into() * 100.0;
+        self.size = (font_size.into() * 100.0).round();
         self
     }
 
-- 
2.43.0


From e10f69f8a6e6e8446f4443d6b6046dbe03833749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:35 +0000
Subject: [PATCH 100/117] fix: turning off a chart marker that had a type

---
 src/chart.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/chart.rs b/src/chart.rs
index c495ca0..5910814 100644
--- a/src/chart.rs
+++ b/src/chart.rs
@@ -5624,10 +5624,10 @@ impl Chart {
     fn write_symbol(&mut self, marker: &ChartMarker) {
         let mut attributes = vec![];
 
-        if let Some(marker_type) = marker.marker_type {
-            attributes.push(("val", marker_type.to_string()));
-        } else if marker.none {
+        if marker.none {
             attributes.push(("val", "none".to_string()));
+        } else if let Some(marker_type) = marker.marker_type {
+            attributes.push(("val", marker_type.to_string()));
         }
 
         xml_empty_tag(&mut self.writer, "c:symbol", &attributes);
-- 
2.43.0


From 09287a0653449997da8a73e7e2d15c935144b8c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:33 +0000
Subject: [PATCH 101/117] fix: keep the text direction of the fonts of custom
 chart data labels

---
 src/chart.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chart.rs b/src/chart.rs
index 5910814..3b5d18d 100644
--- a/src/chart.rs
+++ b/src/chart.rs
@@ -6367,7 +6367,7 @@ impl Chart {
     fn write_a_p_rich(&mut self, title: &ChartTitle) {
         xml_start_tag_only(&mut self.writer, "a:p");
 
-        if !title.ignore_rich_para {
+        if !title.ignore_rich_para || title.font.right_to_left.is_some() {
             // Write the a:pPr element.
             self.write_a_p_pr_rich(&title.font);
         }
-- 
2.43.0


From 69b4e4ec24833e1543e014371b5659259d13990c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:26 +0000
Subject: [PATCH 102/117] fix: set the separator of chart data labels back to a
 comma

---
 src/chart.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/chart.rs b/src/chart.rs
index 3b5d18d..939552f 100644
--- a/src/chart.rs
+++ b/src/chart.rs
@@ -10049,8 +10049,8 @@ impl ChartDataLabel {
     /// `separator` - The label separator character.
     ///
     pub fn set_separator(&mut self, separator: char) -> &mut ChartDataLabel {
-        // Accept valid separators only apart from comma which is the default.
-        if ";. \n".contains(separator) {
+        // Accept valid separators only.
+        if ",;. \n".contains(separator) {
             self.separator = separator;
         }
 
-- 
2.43.0


From dabc81904c866c7a267d8eb949ff75ebfb21455a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:14 +0000
Subject: [PATCH 103/117] fix: serialize the fields of a struct that follow a
 nested struct

---
 src/serializer.rs | 35 +++++++++++++++++++++++++++++++----
 src/worksheet.rs  |  1 +
 2 files changed, 32 insertions(+), 4 deletions(-)

diff --git a/src/serializer.rs b/src/serializer.rs
index db42d67..65570be 100644
--- a/src/serializer.rs
+++ b/src/serializer.rs
@@ -1980,6 +1980,8 @@ pub(crate) struct SerializerState {
     pub(crate) structs: HashMap<String, SerializationHeaderConfig>,
     pub(crate) current_struct: String,
     pub(crate) current_field: String,
+    pub(crate) current_row: RowNum,
+    pub(crate) parent_structs: Vec<(String, String, RowNum)>,
 }
 
 impl SerializerState {
@@ -1989,6 +1991,8 @@ impl SerializerState {
             structs: HashMap::new(),
             current_struct: String::new(),
             current_field: String::new(),
+            current_row: 0,
+            parent_structs: vec![],
         }
     }
 
@@ -2004,7 +2008,7 @@ impl SerializerState {
         };
 
         // Set the "current" cell values used to write the serialized data.
-        let row = header_config.max_row - 1;
+        let row = self.current_row;
         let col = field.col;
         let value_format = Arc::clone(&field.value_format);
 
@@ -2013,17 +2017,38 @@ impl SerializerState {
 
     // Store the name and max row of the current struct being serialized.
     pub(crate) fn set_current_struct(&mut self, struct_name: &str) {
-        if struct_name != self.current_struct {
-            self.current_struct = struct_name.to_string();
-        }
+        // The struct may be a field of another struct. Keep the position in the
+        // parent struct so that we can return to it.
+        self.parent_structs.push((
+            std::mem::replace(&mut self.current_struct, struct_name.to_string()),
+            self.current_field.clone(),
+            self.current_row,
+        ));
 
         // Increment the max row every time we serialize a new struct instance.
         let Some(header_config) = self.structs.get_mut(&self.current_struct) else {
             return;
         };
+        self.current_row = header_config.max_row;
         header_config.max_row += 1;
     }
 
+    // Return to the position in the parent struct, if any.
+    pub(crate) fn end_current_struct(&mut self) {
+        if let Some((struct_name, field_name, row)) = self.parent_structs.pop() {
+            self.current_struct = struct_name;
+            self.current_field = field_name;
+            self.current_row = row;
+        }
+    }
+
+    // Reset the position at the start of a top level serialization.
+    pub(crate) fn reset_current_struct(&mut self) {
+        self.current_struct.clear();
+        self.current_field.clear();
+        self.parent_structs.clear();
+    }
+
     // Get dimensions of a serialization area. This is the internal function for
     // worksheet.get_serialize_dimensions().
     pub(crate) fn get_dimensions(
@@ -3769,6 +3794,8 @@ impl ser::SerializeStruct for &mut Worksheet {
     }
 
     fn end(self) -> Result<(), XlsxError> {
+        self.serializer_state.end_current_struct();
+
         Ok(())
     }
 }
diff --git a/src/worksheet.rs b/src/worksheet.rs
index e1ff152..0bf3e5a 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -12158,6 +12158,7 @@ impl Worksheet {
     where
         T: Serialize,
     {
+        self.serializer_state.reset_current_struct();
         data_structure.serialize(self)?;
         Ok(())
     }
-- 
2.43.0


From 5bafa15e1f733f1911d4f36278eca68dd3ed4433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:14 +0000
Subject: [PATCH 104/117] fix: the dimensions of a serialization area without
 headers or data

---
 src/serializer.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/serializer.rs b/src/serializer.rs
index 65570be..ba05cfe 100644
--- a/src/serializer.rs
+++ b/src/serializer.rs
@@ -2064,7 +2064,7 @@ impl SerializerState {
         Ok((
             header_config.min_row,
             header_config.min_col,
-            header_config.max_row - 1,
+            header_config.last_row(),
             header_config.max_col,
         ))
     }
@@ -2091,7 +2091,7 @@ impl SerializerState {
         Ok((
             header_config.min_row,
             field.col,
-            header_config.max_row - 1,
+            header_config.last_row(),
             field.col,
         ))
     }
@@ -2124,6 +2124,12 @@ pub(crate) struct SerializationHeaderConfig {
 }
 
 impl SerializationHeaderConfig {
+    // Get the last row of the serialization area. The area has at least one row
+    // even if the headers are hidden and nothing has been serialized yet.
+    pub(crate) fn last_row(&self) -> RowNum {
+        self.max_row.saturating_sub(1).max(self.min_row)
+    }
+
     // Get table object and dimensions for the a serialization area.
     pub(crate) fn get_table(&mut self) -> Option<TableData> {
         let table = self.table.take();
@@ -2132,7 +2138,7 @@ impl SerializationHeaderConfig {
             Some(table) => Some(TableData(
                 self.min_row,
                 self.min_col,
-                self.max_row - 1,
+                self.last_row(),
                 self.max_col,
                 table,
             )),
-- 
2.43.0


From 2311802edd33979bae4bbf847721bf3014f66b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:14 +0000
Subject: [PATCH 105/117] fix: write the tables of serialization areas in the
 order they were defined

---
 src/serializer.rs | 37 +++++++++++++++++++------------------
 src/worksheet.rs  | 37 +++++++++++++++++++++----------------
 2 files changed, 40 insertions(+), 34 deletions(-)

diff --git a/src/serializer.rs b/src/serializer.rs
index ba05cfe..44b27d7 100644
--- a/src/serializer.rs
+++ b/src/serializer.rs
@@ -1982,6 +1982,7 @@ pub(crate) struct SerializerState {
     pub(crate) current_field: String,
     pub(crate) current_row: RowNum,
     pub(crate) parent_structs: Vec<(String, String, RowNum)>,
+    pub(crate) next_index: usize,
 }
 
 impl SerializerState {
@@ -1993,6 +1994,7 @@ impl SerializerState {
             current_field: String::new(),
             current_row: 0,
             parent_structs: vec![],
+            next_index: 0,
         }
     }
 
@@ -2096,17 +2098,18 @@ impl SerializerState {
         ))
     }
 
-    // Get all/any tables defined for serialization areas.
-    pub(crate) fn get_tables(&mut self) -> Vec<TableData> {
-        let mut tables = vec![];
+    // Get the names of the structs with tables that haven't been written yet, in
+    // the order that the serialization areas were defined.
+    pub(crate) fn structs_with_tables(&self) -> Vec<String> {
+        let mut structs: Vec<_> = self
+            .structs
+            .iter()
+            .filter(|(_, header_config)| header_config.table.is_some())
+            .collect();
 
-        for header_config in self.structs.values_mut() {
-            if let Some(table) = header_config.get_table() {
-                tables.push(table);
-            }
-        }
+        structs.sort_by_key(|(_, header_config)| header_config.index);
 
-        tables
+        structs.into_iter().map(|(name, _)| name.clone()).collect()
     }
 }
 
@@ -2121,6 +2124,7 @@ pub(crate) struct SerializationHeaderConfig {
     pub(crate) max_row: RowNum,
     pub(crate) max_col: ColNum,
     pub(crate) table: Option<Table>,
+    pub(crate) index: usize,
 }
 
 impl SerializationHeaderConfig {
@@ -2131,19 +2135,16 @@ impl SerializationHeaderConfig {
     }
 
     // Get table object and dimensions for the a serialization area.
-    pub(crate) fn get_table(&mut self) -> Option<TableData> {
-        let table = self.table.take();
-
-        match table {
-            Some(table) => Some(TableData(
+    pub(crate) fn get_table(&self) -> Option<TableData> {
+        self.table.as_ref().map(|table| {
+            TableData(
                 self.min_row,
                 self.min_col,
                 self.last_row(),
                 self.max_col,
-                table,
-            )),
-            None => None,
-        }
+                table.clone(),
+            )
+        })
     }
 }
 
diff --git a/src/worksheet.rs b/src/worksheet.rs
index 0bf3e5a..10c243e 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -1377,7 +1377,7 @@ use serde::{Deserialize, Serialize};
 #[cfg(feature = "serde")]
 use crate::{
     deserialize_headers, serializer::SerializerState, CustomSerializeField,
-    SerializationHeaderConfig, SerializeFieldOptions, SerializerHeader, TableData, XlsxSerialize,
+    SerializationHeaderConfig, SerializeFieldOptions, SerializerHeader, XlsxSerialize,
 };
 
 use crate::drawing::{Drawing, DrawingCoordinates, DrawingInfo, DrawingObject, DrawingType};
@@ -12113,15 +12113,7 @@ impl Worksheet {
 
         // If a previous serialization was carried out with the same struct name
         // then write the previous table formatting.
-        if let Some(header_config) = self
-            .serializer_state
-            .structs
-            .get_mut(&header_options.struct_name)
-        {
-            if let Some(table_data) = header_config.get_table() {
-                self.write_serialized_table(&table_data)?;
-            }
-        }
+        self.write_serialized_table(&header_options.struct_name)?;
 
         // Clone the new user defined table format, if present.
         let table = match &header_options.table {
@@ -12137,6 +12129,8 @@ impl Worksheet {
         };
 
         // Store meta data for the struct/headers.
+        let index = self.serializer_state.next_index;
+        self.serializer_state.next_index += 1;
         self.serializer_state.structs.insert(
             header_options.struct_name.clone(),
             SerializationHeaderConfig {
@@ -12146,6 +12140,7 @@ impl Worksheet {
                 max_row,
                 max_col,
                 table,
+                index,
             },
         );
 
@@ -12186,10 +12181,8 @@ impl Worksheet {
     // Add any tables that were added as part of serialization formatting.
     #[cfg(feature = "serde")]
     pub(crate) fn store_serialized_tables(&mut self) -> Result<&mut Worksheet, XlsxError> {
-        let tables = self.serializer_state.get_tables();
-
-        for table_data in tables {
-            self.write_serialized_table(&table_data)?;
+        for struct_name in self.serializer_state.structs_with_tables() {
+            self.write_serialized_table(&struct_name)?;
         }
 
         Ok(self)
@@ -12199,8 +12192,13 @@ impl Worksheet {
     #[cfg(feature = "serde")]
     pub(crate) fn write_serialized_table(
         &mut self,
-        table_data: &TableData,
+        struct_name: &str,
     ) -> Result<&mut Worksheet, XlsxError> {
+        let header_config = self.serializer_state.structs.get(struct_name);
+        let Some(table_data) = header_config.and_then(SerializationHeaderConfig::get_table) else {
+            return Ok(self);
+        };
+
         let min_col = table_data.1;
         let max_col = table_data.3;
         let min_row = table_data.0;
@@ -12211,7 +12209,14 @@ impl Worksheet {
             max_row += 1;
         }
 
-        self.add_table(min_row, min_col, max_row, max_col, table)
+        self.add_table(min_row, min_col, max_row, max_col, table)?;
+
+        // The table is only dropped from the serialization area when written.
+        if let Some(header_config) = self.serializer_state.structs.get_mut(struct_name) {
+            header_config.table = None;
+        }
+
+        Ok(self)
     }
 
     // -----------------------------------------------------------------------
-- 
2.43.0


From cbcc47c665f049fe321e64a94d2af11e622f0d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:21 +0000
Subject: [PATCH 106/117] fix: derive XlsxSerialize with several values in a
 serde attribute

---
 macros/src/lib.rs | 77 +++++++++++++++++++++++++++++++----------------
 1 file changed, 51 insertions(+), 26 deletions(-)

diff --git a/macros/src/lib.rs b/macros/src/lib.rs
index 0220fea..aad20d6 100644
--- a/macros/src/lib.rs
+++ b/macros/src/lib.rs
@@ -82,6 +82,8 @@
 //!
 use proc_macro::TokenStream;
 use quote::{quote, ToTokens};
+use syn::meta::ParseNestedMeta;
+use syn::token::Paren;
 use syn::{
     parse_macro_input, Attribute, Data, DeriveInput, Expr, Fields, LitFloat, LitInt, LitStr, Token,
 };
@@ -977,39 +979,23 @@ fn parse_header_attribute(attribute: &Attribute) -> Vec<HeaderAttributeTypes> {
     // errors since that will be done by the Serde proc macros.
     if attribute.path().is_ident("serde") {
         let _ = attribute.parse_nested_meta(|meta| {
-            // We need to handle 2 `rename_all` cases here, one of which is nested:
-            //     #[serde(rename_all = "...")]
-            //     #[serde(rename_all(serialize = "..."))]
+            // Handle the #[serde(rename_all = "")] container attribute.
             if meta.path.is_ident("rename_all") {
-                let not_nested = meta.input.peek(Token![=]);
-
-                if not_nested {
-                    let value = meta.value()?;
-                    let token = value.parse()?;
+                if let Some(token) = parse_serde_name(&meta)? {
                     attributes.push(HeaderAttributeTypes::SerdeRenameAll(token));
-                } else {
-                    let _ = meta.parse_nested_meta(|meta| {
-                        if meta.path.is_ident("serialize") {
-                            let value = meta.value()?;
-                            let token = value.parse()?;
-                            attributes.push(HeaderAttributeTypes::SerdeRenameAll(token));
-                        }
-                        Ok(())
-                    });
                 }
-
                 Ok(())
             }
             // Handle the #[serde(rename = "")] container attribute.
             else if meta.path.is_ident("rename") {
-                let value = meta.value()?;
-                let token = value.parse()?;
-                attributes.push(HeaderAttributeTypes::SerdeRename(token));
+                if let Some(token) = parse_serde_name(&meta)? {
+                    attributes.push(HeaderAttributeTypes::SerdeRename(token));
+                }
                 Ok(())
             }
             // Ignore everything else.
             else {
-                Ok(())
+                skip_attribute_value(&meta)
             }
         });
     }
@@ -1135,14 +1121,14 @@ fn parse_field_attribute(attribute: &Attribute) -> Vec<FieldAttributeTypes> {
             }
             // Handle he #[serde(rename = "Price")] field attribute:
             else if meta.path.is_ident("rename") {
-                let value = meta.value()?;
-                let token = value.parse()?;
-                attributes.push(FieldAttributeTypes::SerdeRename(token));
+                if let Some(token) = parse_serde_name(&meta)? {
+                    attributes.push(FieldAttributeTypes::SerdeRename(token));
+                }
                 Ok(())
             }
             // Ignore everything else.
             else {
-                Ok(())
+                skip_attribute_value(&meta)
             }
         });
     }
@@ -1165,6 +1151,45 @@ enum FieldAttributeTypes {
     SerdeRename(LitStr),
 }
 
+// -----------------------------------------------------------------------
+// Parse the serialization name in a Serde `rename` or `rename_all` attribute.
+// There are 2 cases, one of which is nested:
+//     #[serde(rename = "...")]
+//     #[serde(rename(serialize = "...", deserialize = "..."))]
+// -----------------------------------------------------------------------
+fn parse_serde_name(meta: &ParseNestedMeta) -> syn::Result<Option<LitStr>> {
+    if meta.input.peek(Token![=]) {
+        let token = meta.value()?.parse()?;
+        return Ok(Some(token));
+    }
+
+    let mut name = None;
+    meta.parse_nested_meta(|meta| {
+        if meta.path.is_ident("serialize") {
+            name = Some(meta.value()?.parse()?);
+            Ok(())
+        } else {
+            skip_attribute_value(&meta)
+        }
+    })?;
+
+    Ok(name)
+}
+
+// -----------------------------------------------------------------------
+// Skip over the value, if any, of an attribute that isn't used. Otherwise the
+// attributes that follow it wouldn't be parsed.
+// -----------------------------------------------------------------------
+fn skip_attribute_value(meta: &ParseNestedMeta) -> syn::Result<()> {
+    if meta.input.peek(Token![=]) {
+        meta.value()?.parse::<Expr>()?;
+    } else if meta.input.peek(Paren) {
+        meta.parse_nested_meta(|meta| skip_attribute_value(&meta))?;
+    }
+
+    Ok(())
+}
+
 // -----------------------------------------------------------------------
 // Function to mimic Serde's RenameRule.apply_to_field().
 // -----------------------------------------------------------------------
-- 
2.43.0


From 62ddd58c94c739587f84b99c90dd49fdc44f7b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:21 +0000
Subject: [PATCH 107/117] fix: derive XlsxSerialize for raw identifiers and for
 a field called original

---
 macros/src/lib.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/macros/src/lib.rs b/macros/src/lib.rs
index aad20d6..e8c8473 100644
--- a/macros/src/lib.rs
+++ b/macros/src/lib.rs
@@ -82,6 +82,7 @@
 //!
 use proc_macro::TokenStream;
 use quote::{quote, ToTokens};
+use syn::ext::IdentExt;
 use syn::meta::ParseNestedMeta;
 use syn::token::Paren;
 use syn::{
@@ -678,7 +679,7 @@ use syn::{
 pub fn excel_serialize_derive(input: TokenStream) -> TokenStream {
     let ast = parse_macro_input!(input as DeriveInput);
     let (impl_generics, type_generics, where_clause) = ast.generics.split_for_impl();
-    let mut struct_name = ast.ident.to_string();
+    let mut struct_name = ast.ident.unraw().to_string();
     let struct_type = ast.ident;
 
     let mut field_case = "original".to_string();
@@ -757,9 +758,9 @@ pub fn excel_serialize_derive(input: TokenStream) -> TokenStream {
             'field: for field in &fields.named {
                 if let Some(field_name) = field.ident.as_ref() {
                     // Get the field name to map to a custom header.
-                    let mut field_name = field_name.to_string();
+                    let mut field_name = field_name.unraw().to_string();
 
-                    if field_name != "original" {
+                    if field_case != "original" {
                         field_name = rename_field(&field_name, &field_case);
                     }
 
-- 
2.43.0


From fe6f1a5e6cb19e6ae0b6c531cf2463733277899f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:21 +0000
Subject: [PATCH 108/117] fix: derive XlsxSerialize with the same renaming
 rules as Serde

---
 macros/src/lib.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/macros/src/lib.rs b/macros/src/lib.rs
index e8c8473..7029818 100644
--- a/macros/src/lib.rs
+++ b/macros/src/lib.rs
@@ -1196,7 +1196,6 @@ fn skip_attribute_value(meta: &ParseNestedMeta) -> syn::Result<()> {
 // -----------------------------------------------------------------------
 fn rename_field(field_name: &str, rename_type: &str) -> String {
     match rename_type {
-        "lowercase" => field_name.to_ascii_lowercase(),
         "camelCase" => camel_case(field_name),
         "kebab-case" => field_name.replace('_', "-"),
         "PascalCase" => pascal_case(field_name),
@@ -1218,13 +1217,19 @@ fn camel_case(field_name: &str) -> String {
 }
 
 fn uppercase_first(segment: &str) -> String {
-    let mut segment = segment.to_string();
-    segment.remove(0).to_uppercase().to_string() + &segment
+    let mut chars = segment.chars();
+    match chars.next() {
+        Some(first) => first.to_ascii_uppercase().to_string() + chars.as_str(),
+        None => String::new(),
+    }
 }
 
 fn lowercase_first(segment: &str) -> String {
-    let mut segment = segment.to_string();
-    segment.remove(0).to_lowercase().to_string() + &segment
+    let mut chars = segment.chars();
+    match chars.next() {
+        Some(first) => first.to_ascii_lowercase().to_string() + chars.as_str(),
+        None => String::new(),
+    }
 }
 
 // -----------------------------------------------------------------------
-- 
2.43.0


From b04cac1c31bd655fbc34695be28ea0efcdd58d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:43 +0000
Subject: [PATCH 109/117] fix: the column names of tables around serialized
 data

---
 src/worksheet.rs | 42 ++++++++++++++++++++++++++++--------------
 1 file changed, 28 insertions(+), 14 deletions(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 10c243e..343c826 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -1377,7 +1377,7 @@ use serde::{Deserialize, Serialize};
 #[cfg(feature = "serde")]
 use crate::{
     deserialize_headers, serializer::SerializerState, CustomSerializeField,
-    SerializationHeaderConfig, SerializeFieldOptions, SerializerHeader, XlsxSerialize,
+    SerializationHeaderConfig, SerializeFieldOptions, SerializerHeader, TableColumn, XlsxSerialize,
 };
 
 use crate::drawing::{Drawing, DrawingCoordinates, DrawingInfo, DrawingObject, DrawingType};
@@ -12055,6 +12055,16 @@ impl Worksheet {
 
         let col_initial = col;
         let write_headers = header_options.has_headers;
+        let use_constant_memory = self.use_constant_memory;
+
+        // Clone the new user defined table format, if present.
+        let mut table = header_options.table.clone();
+        if let Some(table) = &mut table {
+            if !write_headers {
+                table.show_header_row = false;
+            }
+            table.is_serde_table = true;
+        }
 
         let mut col_offset = 0;
         for custom_header in &header_options.custom_headers {
@@ -12066,6 +12076,23 @@ impl Worksheet {
             let mut custom_header = custom_header.clone();
             custom_header.col = col;
             max_col = col;
+
+            // The header must match the name of the table column, if there is
+            // one. In constant memory mode it can't be read back later.
+            if let Some(table) = &mut table {
+                if table.columns.len() <= col_offset {
+                    table
+                        .columns
+                        .resize_with(col_offset + 1, TableColumn::default);
+                }
+                let column = &mut table.columns[col_offset];
+                if !column.name.is_empty() {
+                    custom_header.header_name.clone_from(&column.name);
+                } else if use_constant_memory && write_headers {
+                    column.name.clone_from(&custom_header.header_name);
+                }
+            }
+
             col_offset += 1;
 
             // Set the column width if specified by user.
@@ -12115,19 +12142,6 @@ impl Worksheet {
         // then write the previous table formatting.
         self.write_serialized_table(&header_options.struct_name)?;
 
-        // Clone the new user defined table format, if present.
-        let table = match &header_options.table {
-            Some(table) => {
-                let mut table = table.clone();
-                if !header_options.has_headers {
-                    table.show_header_row = false;
-                }
-                table.is_serde_table = true;
-                Some(table)
-            }
-            None => None,
-        };
-
         // Store meta data for the struct/headers.
         let index = self.serializer_state.next_index;
         self.serializer_state.next_index += 1;
-- 
2.43.0


From 4281a38a8e5b3b9c5b62e85602e2af5dd7d560d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:01 +0000
Subject: [PATCH 110/117] fix: keep the empty last lines of the text of a shape

---
 src/drawing.rs | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/drawing.rs b/src/drawing.rs
index 44cc511..17e860d 100644
--- a/src/drawing.rs
+++ b/src/drawing.rs
@@ -994,14 +994,9 @@ impl Drawing {
         // Write the <a:lstStyle> element.
         self.write_a_lst_style();
 
-        // Ensure at least one paragraph for empty text.
-        let text = if drawing_info.name.is_empty() {
-            "\n".to_string()
-        } else {
-            drawing_info.name.clone()
-        };
-
-        for text in text.lines() {
+        // Write a paragraph for each line, including a last empty line. There
+        // is at least one paragraph, even for empty text.
+        for text in drawing_info.name.replace("\r\n", "\n").split('\n') {
             // Write the <a:p> element.
             self.write_a_p(text, shape);
         }
-- 
2.43.0


From 2fc6c861422a44fde83a85a2e0a354d1c5e51e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:50 +0000
Subject: [PATCH 111/117] fix: escape texts which look like an escape wherever
 they are read as Excel strings

---
 src/chart.rs              |  12 ++---
 src/comment.rs            |  11 +++--
 src/conditional_format.rs |  32 ++++++------
 src/rich_value.rs         |   4 +-
 src/styles.rs             |   9 ++--
 src/table.rs              |  10 ++--
 src/workbook.rs           |  14 ++++--
 src/worksheet.rs          | 101 +++++++++++++++++++++++++++-----------
 src/xmlwriter.rs          |   6 +++
 9 files changed, 127 insertions(+), 72 deletions(-)

diff --git a/src/chart.rs b/src/chart.rs
index 939552f..a9d0e48 100644
--- a/src/chart.rs
+++ b/src/chart.rs
@@ -746,8 +746,8 @@ use std::{fmt, mem, sync::OnceLock};
 use crate::drawing::{DrawingObject, DrawingType};
 use crate::utility::{self, ToXmlBoolean};
 use crate::xmlwriter::{
-    xml_data_element_only, xml_declaration, xml_empty_tag, xml_empty_tag_only, xml_end_tag,
-    xml_start_tag, xml_start_tag_only,
+    escape_xml_escapes, xml_data_element_only, xml_declaration, xml_empty_tag, xml_empty_tag_only,
+    xml_end_tag, xml_start_tag, xml_start_tag_only, xml_string_element_only,
 };
 
 use crate::{
@@ -4181,7 +4181,7 @@ impl Chart {
 
     // Write the <c:formatCode> element.
     fn write_format_code(&mut self, format_code: &str) {
-        xml_data_element_only(&mut self.writer, "c:formatCode", format_code);
+        xml_string_element_only(&mut self.writer, "c:formatCode", format_code);
     }
 
     // Write the <c:ptCount> element.
@@ -4196,7 +4196,7 @@ impl Chart {
         let attributes = [("idx", index.to_string())];
 
         xml_start_tag(&mut self.writer, "c:pt", &attributes);
-        xml_data_element_only(&mut self.writer, "c:v", value);
+        xml_string_element_only(&mut self.writer, "c:v", value);
         xml_end_tag(&mut self.writer, "c:pt");
     }
 
@@ -4692,7 +4692,7 @@ impl Chart {
     // Write the <c:numFmt> element.
     fn write_number_format(&mut self, format: &str, linked: bool) {
         let attributes = [
-            ("formatCode", format.to_string()),
+            ("formatCode", escape_xml_escapes(format).to_string()),
             ("sourceLinked", linked.to_xml_bool()),
         ];
 
@@ -6342,7 +6342,7 @@ impl Chart {
     fn write_tx_value(&mut self, title: &ChartTitle) {
         xml_start_tag_only(&mut self.writer, "c:tx");
 
-        xml_data_element_only(&mut self.writer, "c:v", &title.name);
+        xml_string_element_only(&mut self.writer, "c:v", &title.name);
 
         xml_end_tag(&mut self.writer, "c:tx");
     }
diff --git a/src/comment.rs b/src/comment.rs
index 766aa1e..e10492d 100644
--- a/src/comment.rs
+++ b/src/comment.rs
@@ -10,8 +10,8 @@ use std::collections::BTreeMap;
 use std::io::Cursor;
 
 use crate::xmlwriter::{
-    escape_xml_escapes, xml_data_element, xml_data_element_only, xml_declaration, xml_empty_tag,
-    xml_empty_tag_only, xml_end_tag, xml_start_tag, xml_start_tag_only,
+    escape_xml_escapes, xml_data_element, xml_declaration, xml_empty_tag, xml_empty_tag_only,
+    xml_end_tag, xml_start_tag, xml_start_tag_only, xml_string_element_only,
 };
 use crate::{utility, ColNum, Note, RowNum};
 
@@ -90,7 +90,7 @@ impl Comment {
 
     // Write the <author> element.
     fn write_author(&mut self, author: &str) {
-        xml_data_element_only(&mut self.writer, "author", author);
+        xml_string_element_only(&mut self.writer, "author", author);
     }
 
     // Write the <commentList> element.
@@ -195,7 +195,10 @@ impl Comment {
 
     // Write the <rFont> element.
     fn write_font_name(&mut self, note: &Note) {
-        let attributes = [("val", note.format.font.name.clone())];
+        let attributes = [(
+            "val",
+            escape_xml_escapes(&note.format.font.name).to_string(),
+        )];
 
         xml_empty_tag(&mut self.writer, "rFont", &attributes);
     }
diff --git a/src/conditional_format.rs b/src/conditional_format.rs
index ccced9d..ffa9173 100644
--- a/src/conditional_format.rs
+++ b/src/conditional_format.rs
@@ -922,8 +922,8 @@ use chrono::{NaiveDate, NaiveDateTime, NaiveTime};
 use std::{borrow::Cow, fmt, io::Cursor};
 
 use crate::xmlwriter::{
-    cursor_to_string, xml_data_element_only, xml_empty_tag, xml_end_tag, xml_start_tag,
-    xml_start_tag_only,
+    cursor_to_string, escape_xml_escapes, xml_data_element_only, xml_empty_tag, xml_end_tag,
+    xml_start_tag, xml_start_tag_only, xml_string_element_only,
 };
 use crate::{Color, ExcelDateTime, Format, Formula, XlsxError};
 
@@ -1445,12 +1445,12 @@ impl ConditionalFormatCell {
             | ConditionalFormatCellRule::LessThanOrEqualTo(value)
             | ConditionalFormatCellRule::GreaterThan(value)
             | ConditionalFormatCellRule::GreaterThanOrEqualTo(value) => {
-                xml_data_element_only(&mut writer, "formula", &value.value);
+                xml_string_element_only(&mut writer, "formula", &value.value);
             }
             ConditionalFormatCellRule::Between(min, max)
             | ConditionalFormatCellRule::NotBetween(min, max) => {
-                xml_data_element_only(&mut writer, "formula", &min.value);
-                xml_data_element_only(&mut writer, "formula", &max.value);
+                xml_string_element_only(&mut writer, "formula", &min.value);
+                xml_string_element_only(&mut writer, "formula", &max.value);
             }
         }
 
@@ -1646,7 +1646,7 @@ impl ConditionalFormatBlank {
 
         // Write the rule.
         xml_start_tag(&mut writer, "cfRule", &attributes);
-        xml_data_element_only(&mut writer, "formula", &formula);
+        xml_string_element_only(&mut writer, "formula", &formula);
         xml_end_tag(&mut writer, "cfRule");
 
         cursor_to_string(&writer)
@@ -1847,7 +1847,7 @@ impl ConditionalFormatError {
 
         // Write the rule.
         xml_start_tag(&mut writer, "cfRule", &attributes);
-        xml_data_element_only(&mut writer, "formula", &formula);
+        xml_string_element_only(&mut writer, "formula", &formula);
         xml_end_tag(&mut writer, "cfRule");
 
         cursor_to_string(&writer)
@@ -2320,7 +2320,7 @@ impl ConditionalFormatFormula {
 
         // Write the rule.
         xml_start_tag(&mut writer, "cfRule", &attributes);
-        xml_data_element_only(&mut writer, "formula", &self.formula.formula_string);
+        xml_string_element_only(&mut writer, "formula", &self.formula.formula_string);
         xml_end_tag(&mut writer, "cfRule");
 
         cursor_to_string(&writer)
@@ -3051,12 +3051,12 @@ impl ConditionalFormatText {
             | ConditionalFormatTextRule::DoesNotContain(text)
             | ConditionalFormatTextRule::BeginsWith(text)
             | ConditionalFormatTextRule::EndsWith(text) => {
-                attributes.push(("text", text.clone()));
+                attributes.push(("text", escape_xml_escapes(text).to_string()));
             }
         }
 
         xml_start_tag(&mut writer, "cfRule", &attributes);
-        xml_data_element_only(&mut writer, "formula", &formula);
+        xml_string_element_only(&mut writer, "formula", &formula);
         xml_end_tag(&mut writer, "cfRule");
 
         cursor_to_string(&writer)
@@ -3322,7 +3322,7 @@ impl ConditionalFormatDate {
         attributes.push(("timePeriod", self.rule.to_string()));
 
         xml_start_tag(&mut writer, "cfRule", &attributes);
-        xml_data_element_only(&mut writer, "formula", &formula);
+        xml_string_element_only(&mut writer, "formula", &formula);
         xml_end_tag(&mut writer, "cfRule");
 
         cursor_to_string(&writer)
@@ -5513,25 +5513,25 @@ impl ConditionalFormatDataBar {
             ConditionalFormatType::Number => {
                 attributes.push(("type", "num".to_string()));
                 xml_start_tag(writer, "x14:cfvo", &attributes);
-                xml_data_element_only(writer, "xm:f", value);
+                xml_string_element_only(writer, "xm:f", value);
                 xml_end_tag(writer, "x14:cfvo");
             }
             ConditionalFormatType::Percent => {
                 attributes.push(("type", "percent".to_string()));
                 xml_start_tag(writer, "x14:cfvo", &attributes);
-                xml_data_element_only(writer, "xm:f", value);
+                xml_string_element_only(writer, "xm:f", value);
                 xml_end_tag(writer, "x14:cfvo");
             }
             ConditionalFormatType::Formula => {
                 attributes.push(("type", "formula".to_string()));
                 xml_start_tag(writer, "x14:cfvo", &attributes);
-                xml_data_element_only(writer, "xm:f", value);
+                xml_string_element_only(writer, "xm:f", value);
                 xml_end_tag(writer, "x14:cfvo");
             }
             ConditionalFormatType::Percentile => {
                 attributes.push(("type", "percentile".to_string()));
                 xml_start_tag(writer, "x14:cfvo", &attributes);
-                xml_data_element_only(writer, "xm:f", value);
+                xml_string_element_only(writer, "xm:f", value);
                 xml_end_tag(writer, "x14:cfvo");
             }
         }
@@ -6271,7 +6271,7 @@ impl ConditionalFormatIconSet {
         }
 
         xml_start_tag(writer, "x14:cfvo", &attributes);
-        xml_data_element_only(writer, "xm:f", &icon.value.value);
+        xml_string_element_only(writer, "xm:f", &icon.value.value);
         xml_end_tag(writer, "x14:cfvo");
     }
 }
diff --git a/src/rich_value.rs b/src/rich_value.rs
index 57c2e94..a857d16 100644
--- a/src/rich_value.rs
+++ b/src/rich_value.rs
@@ -8,7 +8,7 @@ use std::io::Cursor;
 
 use crate::Image;
 
-use crate::xmlwriter::{xml_data_element_only, xml_declaration, xml_end_tag, xml_start_tag};
+use crate::xmlwriter::{xml_declaration, xml_end_tag, xml_start_tag, xml_string_element_only};
 
 pub struct RichValue<'a> {
     pub(crate) writer: Cursor<Vec<u8>>,
@@ -87,6 +87,6 @@ impl RichValue<'_> {
 
     // Write the <v> element.
     fn write_v(&mut self, value: &str) {
-        xml_data_element_only(&mut self.writer, "v", value);
+        xml_string_element_only(&mut self.writer, "v", value);
     }
 }
diff --git a/src/styles.rs b/src/styles.rs
index ea15555..5dbedd4 100644
--- a/src/styles.rs
+++ b/src/styles.rs
@@ -11,8 +11,8 @@ use std::mem;
 
 use crate::format::Format;
 use crate::xmlwriter::{
-    xml_declaration, xml_empty_tag, xml_empty_tag_only, xml_end_tag, xml_start_tag,
-    xml_start_tag_only,
+    escape_xml_escapes, xml_declaration, xml_empty_tag, xml_empty_tag_only, xml_end_tag,
+    xml_start_tag, xml_start_tag_only,
 };
 use crate::{
     Alignment, Border, Color, Fill, Font, FormatAlign, FormatBorder, FormatDiagonalBorder,
@@ -246,7 +246,8 @@ impl<'a> Styles<'a> {
 
     // Write the <name> element.
     fn write_font_name(&mut self, font: &Font) {
-        let attributes = [("val", font.name.as_ref())];
+        let font_name = escape_xml_escapes(&font.name);
+        let attributes = [("val", font_name.as_ref())];
 
         if self.is_rich_string_style {
             xml_empty_tag(&mut self.writer, "rFont", &attributes);
@@ -865,7 +866,7 @@ impl<'a> Styles<'a> {
     fn write_num_fmt(&mut self, num_format_index: u16, num_format: &str) {
         let attributes = [
             ("numFmtId", num_format_index.to_string()),
-            ("formatCode", num_format.to_string()),
+            ("formatCode", escape_xml_escapes(num_format).to_string()),
         ];
 
         xml_empty_tag(&mut self.writer, "numFmt", &attributes);
diff --git a/src/table.rs b/src/table.rs
index c1bd396..a604ede 100644
--- a/src/table.rs
+++ b/src/table.rs
@@ -12,8 +12,8 @@ use std::io::Cursor;
 use std::{collections::HashSet, fmt};
 
 use crate::xmlwriter::{
-    escape_xml_escapes, xml_data_element_only, xml_declaration, xml_empty_tag, xml_end_tag,
-    xml_start_tag,
+    escape_xml_escapes, xml_declaration, xml_empty_tag, xml_end_tag, xml_start_tag,
+    xml_string_element_only,
 };
 use crate::{utility::ToXmlBoolean, CellRange, Format, Formula, RowNum, XlsxError};
 
@@ -1223,7 +1223,7 @@ impl Table {
     fn write_table(&mut self) {
         let schema = "http://schemas.openxmlformats.org/spreadsheetml/2006/main".to_string();
         let range = self.cell_range.to_range_string();
-        let name = self.display_name();
+        let name = escape_xml_escapes(&self.display_name()).to_string();
 
         let mut attributes = vec![
             ("xmlns", schema),
@@ -1318,12 +1318,12 @@ impl Table {
 
     // Write the <calculatedColumnFormula> element.
     fn write_calculated_column_formula(&mut self, formula: &str) {
-        xml_data_element_only(&mut self.writer, "calculatedColumnFormula", formula);
+        xml_string_element_only(&mut self.writer, "calculatedColumnFormula", formula);
     }
 
     // Write the <totalsRowFormula> element.
     fn write_totals_row_formula(&mut self, formula: &str) {
-        xml_data_element_only(&mut self.writer, "totalsRowFormula", formula);
+        xml_string_element_only(&mut self.writer, "totalsRowFormula", formula);
     }
 
     // Write the <tableStyleInfo> element.
diff --git a/src/workbook.rs b/src/workbook.rs
index 042fd0f..640e3e7 100644
--- a/src/workbook.rs
+++ b/src/workbook.rs
@@ -247,8 +247,8 @@ use crate::{
 };
 
 use crate::xmlwriter::{
-    self, xml_data_element, xml_declaration, xml_empty_tag, xml_end_tag, xml_start_tag,
-    xml_start_tag_only,
+    self, escape_xml_escapes, xml_data_element, xml_declaration, xml_empty_tag, xml_end_tag,
+    xml_start_tag, xml_start_tag_only,
 };
 
 /// The `Workbook` struct represents an Excel file in its entirety. It is the
@@ -3059,7 +3059,10 @@ impl Workbook {
         let sheet_id = format!("{index}");
         let rel_id = format!("rId{index}");
 
-        let mut attributes = vec![("name", name.to_string()), ("sheetId", sheet_id)];
+        let mut attributes = vec![
+            ("name", escape_xml_escapes(name).to_string()),
+            ("sheetId", sheet_id),
+        ];
 
         match visible {
             Visible::Default => {}
@@ -3077,7 +3080,8 @@ impl Workbook {
         xml_start_tag_only(&mut self.writer, "definedNames");
 
         for defined_name in &self.defined_names {
-            let mut attributes = vec![("name", defined_name.name())];
+            let mut attributes =
+                vec![("name", escape_xml_escapes(&defined_name.name()).to_string())];
 
             match defined_name.name_type {
                 DefinedNameType::Global => {}
@@ -3093,7 +3097,7 @@ impl Workbook {
             xml_data_element(
                 &mut self.writer,
                 "definedName",
-                &defined_name.range,
+                &escape_xml_escapes(&defined_name.range),
                 &attributes,
             );
         }
diff --git a/src/worksheet.rs b/src/worksheet.rs
index 343c826..36093c5 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -1388,8 +1388,9 @@ use crate::shared_strings_table::SharedStringsTable;
 use crate::styles::Styles;
 use crate::vml::VmlInfo;
 use crate::xmlwriter::{
-    xml_data_element, xml_data_element_only, xml_declaration, xml_empty_tag, xml_empty_tag_only,
-    xml_end_tag, xml_raw_string, xml_start_tag, xml_start_tag_only, XML_WRITE_ERROR,
+    escape_xml_escapes, xml_data_element, xml_data_element_only, xml_declaration, xml_empty_tag,
+    xml_empty_tag_only, xml_end_tag, xml_raw_string, xml_start_tag, xml_start_tag_only,
+    xml_string_element_only, XML_WRITE_ERROR,
 };
 use crate::{
     utility, xmlwriter, Button, Chart, ChartEmptyCells, ChartRangeCacheData,
@@ -18219,19 +18220,31 @@ impl Worksheet {
         }
 
         if !data_validation.error_title.is_empty() {
-            attributes.push(("errorTitle", data_validation.error_title.clone()));
+            attributes.push((
+                "errorTitle",
+                escape_xml_escapes(&data_validation.error_title).to_string(),
+            ));
         }
 
         if !data_validation.error_message.is_empty() {
-            attributes.push(("error", data_validation.error_message.clone()));
+            attributes.push((
+                "error",
+                escape_xml_escapes(&data_validation.error_message).to_string(),
+            ));
         }
 
         if !data_validation.input_title.is_empty() {
-            attributes.push(("promptTitle", data_validation.input_title.clone()));
+            attributes.push((
+                "promptTitle",
+                escape_xml_escapes(&data_validation.input_title).to_string(),
+            ));
         }
 
         if !data_validation.input_message.is_empty() {
-            attributes.push(("prompt", data_validation.input_message.clone()));
+            attributes.push((
+                "prompt",
+                escape_xml_escapes(&data_validation.input_message).to_string(),
+            ));
         }
 
         attributes.push(("sqref", range.to_string()));
@@ -18248,12 +18261,12 @@ impl Worksheet {
             | DataValidationRuleInternal::GreaterThanOrEqualTo(value)
             | DataValidationRuleInternal::ListSource(value)
             | DataValidationRuleInternal::CustomFormula(value) => {
-                xml_data_element_only(&mut self.writer, "formula1", value);
+                xml_string_element_only(&mut self.writer, "formula1", value);
             }
             DataValidationRuleInternal::Between(min, max)
             | DataValidationRuleInternal::NotBetween(min, max) => {
-                xml_data_element_only(&mut self.writer, "formula1", min);
-                xml_data_element_only(&mut self.writer, "formula2", max);
+                xml_string_element_only(&mut self.writer, "formula1", min);
+                xml_string_element_only(&mut self.writer, "formula2", max);
             }
         }
         xml_end_tag(&mut self.writer, "dataValidation");
@@ -18280,19 +18293,31 @@ impl Worksheet {
         }
 
         if !data_validation.error_title.is_empty() {
-            attributes.push(("errorTitle", data_validation.error_title.clone()));
+            attributes.push((
+                "errorTitle",
+                escape_xml_escapes(&data_validation.error_title).to_string(),
+            ));
         }
 
         if !data_validation.error_message.is_empty() {
-            attributes.push(("error", data_validation.error_message.clone()));
+            attributes.push((
+                "error",
+                escape_xml_escapes(&data_validation.error_message).to_string(),
+            ));
         }
 
         if !data_validation.input_title.is_empty() {
-            attributes.push(("promptTitle", data_validation.input_title.clone()));
+            attributes.push((
+                "promptTitle",
+                escape_xml_escapes(&data_validation.input_title).to_string(),
+            ));
         }
 
         if !data_validation.input_message.is_empty() {
-            attributes.push(("prompt", data_validation.input_message.clone()));
+            attributes.push((
+                "prompt",
+                escape_xml_escapes(&data_validation.input_message).to_string(),
+            ));
         }
 
         attributes.push(("sqref", range.to_string()));
@@ -18323,15 +18348,21 @@ impl Worksheet {
                 attributes.push(("r:id", format!("rId{rel_id}")));
 
                 if !hyperlink.anchor.is_empty() {
-                    attributes.push(("location", hyperlink.anchor.to_string()));
+                    attributes.push((
+                        "location",
+                        escape_xml_escapes(&hyperlink.anchor).to_string(),
+                    ));
                 }
 
                 if hyperlink.is_object_link {
-                    attributes.push(("display", hyperlink.link.to_string()));
+                    attributes.push(("display", escape_xml_escapes(&hyperlink.link).to_string()));
                 }
 
                 if !hyperlink.tool_tip.is_empty() {
-                    attributes.push(("tooltip", hyperlink.tool_tip.to_string()));
+                    attributes.push((
+                        "tooltip",
+                        escape_xml_escapes(&hyperlink.tool_tip).to_string(),
+                    ));
                 }
 
                 // Store the linkage to the worksheets rels file.
@@ -18343,13 +18374,19 @@ impl Worksheet {
             }
             HyperlinkType::Internal => {
                 // Internal links don't use the rel file reference id.
-                attributes.push(("location", hyperlink.anchor.to_string()));
+                attributes.push((
+                    "location",
+                    escape_xml_escapes(&hyperlink.anchor).to_string(),
+                ));
 
                 if !hyperlink.tool_tip.is_empty() {
-                    attributes.push(("tooltip", hyperlink.tool_tip.to_string()));
+                    attributes.push((
+                        "tooltip",
+                        escape_xml_escapes(&hyperlink.tool_tip).to_string(),
+                    ));
                 }
 
-                attributes.push(("display", hyperlink.text.to_string()));
+                attributes.push(("display", escape_xml_escapes(&hyperlink.text).to_string()));
             }
             HyperlinkType::Unknown => {}
         }
@@ -18506,7 +18543,7 @@ impl Worksheet {
 
     // Write the <filter> element.
     fn write_filter(&mut self, value: String) {
-        let attributes = [("val", value)];
+        let attributes = [("val", escape_xml_escapes(&value).to_string())];
 
         xml_empty_tag(&mut self.writer, "filter", &attributes);
     }
@@ -18539,7 +18576,7 @@ impl Worksheet {
             attributes.push(("operator", data.criteria.operator()));
         }
 
-        attributes.push(("val", data.value()));
+        attributes.push(("val", escape_xml_escapes(&data.value()).to_string()));
 
         xml_empty_tag(&mut self.writer, "customFilter", &attributes);
     }
@@ -19290,8 +19327,10 @@ impl Worksheet {
             ""
         };
 
-        let formula = crate::xmlwriter::escape_xml_data(formula);
-        let mut result = crate::xmlwriter::escape_xml_data(result);
+        let formula = escape_xml_escapes(formula);
+        let formula = crate::xmlwriter::escape_xml_data(&formula);
+        let result = escape_xml_escapes(result);
+        let mut result = crate::xmlwriter::escape_xml_data(&result);
 
         if result == "TRUE" {
             result = Cow::Owned("1".to_string());
@@ -19345,8 +19384,10 @@ impl Worksheet {
             ""
         };
 
-        let formula = crate::xmlwriter::escape_xml_data(formula);
-        let mut result = crate::xmlwriter::escape_xml_data(result);
+        let formula = escape_xml_escapes(formula);
+        let formula = crate::xmlwriter::escape_xml_data(&formula);
+        let result = escape_xml_escapes(result);
+        let mut result = crate::xmlwriter::escape_xml_data(&result);
 
         if result == "TRUE" {
             result = Cow::Owned("1".to_string());
@@ -19575,7 +19616,7 @@ impl Worksheet {
             .replace("&[Pages]", "&N")
             .replace("&[Picture]", "&G");
 
-        xml_data_element_only(&mut self.writer, "oddHeader", &header);
+        xml_string_element_only(&mut self.writer, "oddHeader", &header);
     }
 
     // Write the <oddFooter> element.
@@ -19591,7 +19632,7 @@ impl Worksheet {
             .replace("&[Pages]", "&N")
             .replace("&[Picture]", "&G");
 
-        xml_data_element_only(&mut self.writer, "oddFooter", &footer);
+        xml_string_element_only(&mut self.writer, "oddFooter", &footer);
     }
 
     // Write the <drawing> element.
@@ -19754,7 +19795,7 @@ impl Worksheet {
         }
 
         attributes.push(("sqref", range));
-        attributes.push(("name", name));
+        attributes.push(("name", escape_xml_escapes(&name).to_string()));
 
         xml_empty_tag(&mut self.writer, "protectedRange", &attributes);
     }
@@ -19969,7 +20010,7 @@ impl Worksheet {
         self.write_sparkline_color("x14:colorLow", sparkline.low_point_color);
 
         if sparkline.date_range.has_data() {
-            xml_data_element_only(&mut self.writer, "xm:f", &sparkline.date_range.formula());
+            xml_string_element_only(&mut self.writer, "xm:f", &sparkline.date_range.formula());
         }
 
         // Write the x14:sparklines element.
@@ -19990,7 +20031,7 @@ impl Worksheet {
         for range in &sparkline.ranges {
             xml_start_tag_only(&mut self.writer, "x14:sparkline");
 
-            xml_data_element_only(&mut self.writer, "xm:f", &range.1);
+            xml_string_element_only(&mut self.writer, "xm:f", &range.1);
             xml_data_element_only(&mut self.writer, "xm:sqref", &range.0);
 
             xml_end_tag(&mut self.writer, "x14:sparkline");
diff --git a/src/xmlwriter.rs b/src/xmlwriter.rs
index 4fc8e55..31f9298 100644
--- a/src/xmlwriter.rs
+++ b/src/xmlwriter.rs
@@ -76,6 +76,12 @@ pub(crate) fn xml_data_element_only<W: Write>(writer: &mut W, tag: &str, data: &
     write!(writer, "<{}>{}</{}>", tag, escape_xml_data(data), tag).expect(XML_WRITE_ERROR);
 }
 
+// Write an XML element that has no attributes and data that is read as an Excel
+// string, in which literal escapes like "_x0000_" must be escaped.
+pub(crate) fn xml_string_element_only<W: Write>(writer: &mut W, tag: &str, data: &str) {
+    xml_data_element_only(writer, tag, &escape_xml_escapes(data));
+}
+
 // Write an XML element with data and specified attributes.
 pub(crate) fn xml_data_element<W, T>(writer: &mut W, tag: &str, data: &str, attributes: &[T])
 where
-- 
2.43.0


From 87a42240087dcf1df6bc4cd4d2c7d66284a8e249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:30 +0000
Subject: [PATCH 112/117] fix: give embedded images with and without a
 description structures of their own

---
 src/packager.rs             | 15 +++++++--------
 src/rich_value.rs           | 15 ++++++++++++++-
 src/rich_value_structure.rs | 23 +++++++++++++++++------
 src/workbook.rs             |  3 ---
 src/worksheet.rs            |  7 -------
 5 files changed, 38 insertions(+), 25 deletions(-)

diff --git a/src/packager.rs b/src/packager.rs
index bceaf93..7555b35 100644
--- a/src/packager.rs
+++ b/src/packager.rs
@@ -863,7 +863,7 @@ impl<W: Write + Seek + Send> Packager<W> {
     ) -> Result<(), XlsxError> {
         self.write_rich_value_file(workbook)?;
         self.write_rich_value_types_file()?;
-        self.write_rich_value_structure_file(options)?;
+        self.write_rich_value_structure_file(workbook)?;
         self.write_rich_value_rel_file(options)?;
 
         Ok(())
@@ -896,13 +896,14 @@ impl<W: Write + Seek + Send> Packager<W> {
     }
 
     // Write the rdrichvaluestructure.xml file.
-    fn write_rich_value_structure_file(
-        &mut self,
-        options: &PackagerOptions,
-    ) -> Result<(), XlsxError> {
+    fn write_rich_value_structure_file(&mut self, workbook: &Workbook) -> Result<(), XlsxError> {
+        let images = &workbook.embedded_images;
+
         let mut rich_value_structure = RichValueStructure::new();
         rich_value_structure.has_embedded_image_descriptions =
-            options.has_embedded_image_descriptions;
+            images.iter().any(|image| !image.alt_text.is_empty());
+        rich_value_structure.has_plain_embedded_images =
+            images.iter().any(|image| image.alt_text.is_empty());
 
         self.zip
             .start_file("xl/richData/rdrichvaluestructure.xml", self.zip_options)?;
@@ -1192,7 +1193,6 @@ pub(crate) struct PackagerOptions {
     pub(crate) image_types: [bool; NUM_IMAGE_FORMATS],
     pub(crate) properties: DocProperties,
     pub(crate) num_embedded_images: u32,
-    pub(crate) has_embedded_image_descriptions: bool,
     pub(crate) feature_property_bags: HashSet<FeaturePropertyBagTypes>,
 }
 
@@ -1219,7 +1219,6 @@ impl PackagerOptions {
             image_types: [false; NUM_IMAGE_FORMATS],
             properties: DocProperties::new(),
             num_embedded_images: 0,
-            has_embedded_image_descriptions: false,
             feature_property_bags: HashSet::new(),
         }
     }
diff --git a/src/rich_value.rs b/src/rich_value.rs
index a857d16..c6c7feb 100644
--- a/src/rich_value.rs
+++ b/src/rich_value.rs
@@ -65,7 +65,20 @@ impl RichValue<'_> {
 
     // Write the <rv> element.
     fn write_rv(&mut self, index: usize, image: &Image) {
-        let attributes = [("s", "0")];
+        // Images with and without a description have a different structure. The
+        // structure without a description, if there is one, comes first.
+        let has_plain_images = self
+            .embedded_images
+            .iter()
+            .any(|image| image.alt_text.is_empty());
+
+        let structure_index = if has_plain_images && !image.alt_text.is_empty() {
+            "1"
+        } else {
+            "0"
+        };
+
+        let attributes = [("s", structure_index)];
         let mut value = "5";
 
         if image.decorative {
diff --git a/src/rich_value_structure.rs b/src/rich_value_structure.rs
index e93c59e..bf58030 100644
--- a/src/rich_value_structure.rs
+++ b/src/rich_value_structure.rs
@@ -11,6 +11,7 @@ use crate::xmlwriter::{xml_declaration, xml_empty_tag, xml_end_tag, xml_start_ta
 pub struct RichValueStructure {
     pub(crate) writer: Cursor<Vec<u8>>,
     pub(crate) has_embedded_image_descriptions: bool,
+    pub(crate) has_plain_embedded_images: bool,
 }
 
 impl RichValueStructure {
@@ -25,6 +26,7 @@ impl RichValueStructure {
         RichValueStructure {
             writer,
             has_embedded_image_descriptions: false,
+            has_plain_embedded_images: true,
         }
     }
 
@@ -45,22 +47,31 @@ impl RichValueStructure {
 
     // Write the <rvStructures> element.
     fn write_rv_structures(&mut self) {
+        let count = usize::from(self.has_plain_embedded_images)
+            + usize::from(self.has_embedded_image_descriptions);
+
         let attributes = [
             (
                 "xmlns",
-                "http://schemas.microsoft.com/office/spreadsheetml/2017/richdata",
+                "http://schemas.microsoft.com/office/spreadsheetml/2017/richdata".to_string(),
             ),
-            ("count", "1"),
+            ("count", count.to_string()),
         ];
 
         xml_start_tag(&mut self.writer, "rvStructures", &attributes);
 
-        // Write the <s> element.
-        self.write_s();
+        // Write the <s> elements.
+        if self.has_plain_embedded_images {
+            self.write_s(false);
+        }
+
+        if self.has_embedded_image_descriptions {
+            self.write_s(true);
+        }
     }
 
     // Write the <s> element.
-    fn write_s(&mut self) {
+    fn write_s(&mut self, has_description: bool) {
         let attributes = [("t", "_localImage")];
 
         xml_start_tag(&mut self.writer, "s", &attributes);
@@ -69,7 +80,7 @@ impl RichValueStructure {
         self.write_k("_rvRel:LocalImageIdentifier", "i");
         self.write_k("CalcOrigin", "i");
 
-        if self.has_embedded_image_descriptions {
+        if has_description {
             // Write the <k> element for embedded image descriptions.
             self.write_k("Text", "s");
         }
diff --git a/src/workbook.rs b/src/workbook.rs
index 640e3e7..48b33be 100644
--- a/src/workbook.rs
+++ b/src/workbook.rs
@@ -2828,9 +2828,6 @@ impl Workbook {
             if !worksheet.embedded_images.is_empty() {
                 package_options.has_metadata = true;
                 package_options.has_embedded_images = true;
-                if worksheet.has_embedded_image_descriptions {
-                    package_options.has_embedded_image_descriptions = true;
-                }
             }
 
             if worksheet.has_vml || worksheet.has_header_footer_images() {
diff --git a/src/worksheet.rs b/src/worksheet.rs
index 36093c5..cf4e9e1 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -1518,7 +1518,6 @@ pub struct Worksheet {
     pub(crate) notes: BTreeMap<RowNum, BTreeMap<ColNum, Note>>,
     pub(crate) shapes: BTreeMap<(RowNum, ColNum, u32, u32), Shape>,
     pub(crate) tables: Vec<Table>,
-    pub(crate) has_embedded_image_descriptions: bool,
     pub(crate) embedded_images: Vec<Image>,
     pub(crate) global_embedded_image_indices: Vec<u32>,
     pub(crate) vba_codename: Option<String>,
@@ -1832,7 +1831,6 @@ impl Worksheet {
             embedded_images: vec![],
             embedded_image_ids: HashMap::new(),
             global_embedded_image_indices: vec![],
-            has_embedded_image_descriptions: false,
             has_sparklines: false,
             sparklines: vec![],
             vba_codename: None,
@@ -15494,11 +15492,6 @@ impl Worksheet {
             }
         };
 
-        // Check for alt text in the image.
-        if !image.alt_text.is_empty() {
-            self.has_embedded_image_descriptions = true;
-        }
-
         // Store the used image type for the Content Type file.
         self.image_types[image.image_type.clone() as usize] = true;
 
-- 
2.43.0


From b56f9df34e1bb9de7fdb11c6a0134dd0e6dd641b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:16 +0000
Subject: [PATCH 113/117] fix: keep label and tick intervals out of date axes,
 which cannot have them

---
 src/chart.rs | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/src/chart.rs b/src/chart.rs
index a9d0e48..0395d39 100644
--- a/src/chart.rs
+++ b/src/chart.rs
@@ -4400,16 +4400,6 @@ impl Chart {
         // Write the c:lblOffset element.
         self.write_lbl_offset();
 
-        // Write the c:tickLblSkip element.
-        if x_axis.label_interval > 1 {
-            self.write_tick_lbl_skip(x_axis.label_interval);
-        }
-
-        // Write the c:tickMarkSkip element.
-        if x_axis.tick_interval > 1 {
-            self.write_tick_mark_skip(x_axis.tick_interval);
-        }
-
         // Write the c:majorUnit element.
         if !x_axis.major_unit.is_empty() {
             self.write_major_unit(&x_axis.major_unit);
-- 
2.43.0


From e37d066af1038ee13c514ef53b374dc8aa47e1a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:46 +0000
Subject: [PATCH 114/117] fix: don't keep the default macro name of a worksheet
 of a previous save

---
 src/workbook.rs  | 7 +------
 src/worksheet.rs | 6 +++++-
 2 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/workbook.rs b/src/workbook.rs
index 48b33be..a4b76a0 100644
--- a/src/workbook.rs
+++ b/src/workbook.rs
@@ -2201,12 +2201,7 @@ impl Workbook {
             // Set a default codename for the worksheet if the overall workbook
             // is a xlsm file. Note that the VBA sheet naming scheme is based on
             // SheetN and not on the actual sheet name.
-            if self.is_xlsm_file {
-                let codename = format!("Sheet{}", i + 1);
-                if worksheet.vba_codename.is_none() {
-                    worksheet.vba_codename = Some(codename);
-                }
-            }
+            worksheet.default_vba_codename = self.is_xlsm_file.then(|| format!("Sheet{}", i + 1));
 
             // Chartsheets shouldn't use constant memory mode.
             if worksheet.is_chartsheet {
diff --git a/src/worksheet.rs b/src/worksheet.rs
index cf4e9e1..1a69b3b 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -1521,6 +1521,7 @@ pub struct Worksheet {
     pub(crate) embedded_images: Vec<Image>,
     pub(crate) global_embedded_image_indices: Vec<u32>,
     pub(crate) vba_codename: Option<String>,
+    pub(crate) default_vba_codename: Option<String>,
     pub(crate) note_authors: BTreeMap<String, usize>,
     pub(crate) vml_data_id: String,
     pub(crate) vml_shape_id: u32,
@@ -1834,6 +1835,7 @@ impl Worksheet {
             has_sparklines: false,
             sparklines: vec![],
             vba_codename: None,
+            default_vba_codename: None,
             note_authors: BTreeMap::from([("Author".to_string(), 0)]),
             show_all_notes: false,
             vml_data_id: String::new(),
@@ -17725,6 +17727,7 @@ impl Worksheet {
             && !self.fit_to_page
             && (self.tab_color == Color::Default || self.tab_color == Color::Automatic)
             && self.vba_codename.is_none()
+            && self.default_vba_codename.is_none()
             && !self.is_chartsheet
             && !self.outline_symbols_above
             && !self.outline_symbols_left
@@ -17733,7 +17736,8 @@ impl Worksheet {
         }
 
         let mut attributes = vec![];
-        if let Some(codename) = &self.vba_codename {
+        let codename = self.vba_codename.as_ref();
+        if let Some(codename) = codename.or(self.default_vba_codename.as_ref()) {
             attributes.push(("codeName", codename.clone()));
         }
         if !self.filter_conditions.is_empty() {
-- 
2.43.0


From 43ecfcb6de268453e4321f48de431d4f3570637b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:57 +0000
Subject: [PATCH 115/117] fix: don't add a macro project whose signature cannot
 be read

---
 src/workbook.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/workbook.rs b/src/workbook.rs
index a4b76a0..6f39b10 100644
--- a/src/workbook.rs
+++ b/src/workbook.rs
@@ -1891,16 +1891,17 @@ impl Workbook {
         project: P,
         signature: P,
     ) -> Result<&mut Workbook, XlsxError> {
-        // Add the project binary file.
-        self.add_vba_project(project)?;
-
-        // Add the signature binary file.
+        // Read the signature binary file.
         let path_buf = signature.as_ref().to_path_buf();
         let file = File::open(path_buf)?;
         let mut reader = BufReader::new(file);
         let mut data = vec![];
         reader.read_to_end(&mut data)?;
 
+        // Add the project binary file.
+        self.add_vba_project(project)?;
+
+        // Add the signature binary file.
         self.vba_signature = data;
 
         Ok(self)
-- 
2.43.0


From 77672129f28b677a9189646bba53f95b3e468745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:49 +0000
Subject: [PATCH 116/117] fix: give a format one index when two threads add it
 at the same time

---
 src/workbook.rs  | 6 +++---
 src/worksheet.rs | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/workbook.rs b/src/workbook.rs
index 6f39b10..4072528 100644
--- a/src/workbook.rs
+++ b/src/workbook.rs
@@ -2578,12 +2578,12 @@ impl Workbook {
         // add the format and create a new index.
         drop(xf_indices);
 
-        // Add the new format and give it an index.
+        // Add the new format and give it an index, unless another thread has
+        // added it since the lookup.
         let mut xf_indices = self.xf_indices.write().expect("RwLock poisoned");
         let xf_index = xf_indices.len() as u32;
-        xf_indices.insert(format.clone(), xf_index);
 
-        xf_index
+        *xf_indices.entry(format.clone()).or_insert(xf_index)
     }
 
     fn format_dxf_index(&mut self, format: &Format) -> u32 {
diff --git a/src/worksheet.rs b/src/worksheet.rs
index 1a69b3b..6157716 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -16109,12 +16109,12 @@ impl Worksheet {
         // add the format and create a new index.
         drop(xf_indices);
 
-        // Add the new format and give it an index.
+        // Add the new format and give it an index, unless another thread has
+        // added it since the lookup.
         let mut xf_indices = self.workbook_xf_indices.write().expect("RwLock poisoned");
         let xf_index = xf_indices.len() as u32;
-        xf_indices.insert(format.clone(), xf_index);
 
-        xf_index
+        *xf_indices.entry(format.clone()).or_insert(xf_index)
     }
 
     // Look up the Format index from the worksheet/local format index table.
-- 
2.43.0


From 8ded593f53419399386028b6863e174c5ec489f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:58 +0000
Subject: [PATCH 117/117] verification: points at which threads can be held,
 with --cfg vsched

---
 src/lib.rs       |  4 ++++
 src/packager.rs  |  6 ++++++
 src/vsched.rs    | 28 ++++++++++++++++++++++++++++
 src/worksheet.rs |  9 +++++++++
 4 files changed, 47 insertions(+)
 create mode 100644 src/vsched.rs

diff --git a/src/lib.rs b/src/lib.rs
index 4db9644..872c7d7 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -6,6 +6,7 @@
 
 #![doc(html_logo_url = "https://rustxlsxwriter.github.io/images/rust_xlsxwriter_logo.png")]
 #![cfg_attr(docsrs, feature(doc_cfg))]
+#![allow(unexpected_cfgs)]
 
 //! `rust_xlsxwriter` is a Rust library for writing Excel files in the xlsx
 //! format.
@@ -252,6 +253,9 @@ pub mod performance;
 pub mod sparkline;
 pub mod tutorial;
 pub mod utility;
+#[cfg(vsched)]
+#[doc(hidden)]
+pub mod vsched;
 pub mod workbook;
 pub mod worksheet;
 
diff --git a/src/packager.rs b/src/packager.rs
index 7555b35..daa7bad 100644
--- a/src/packager.rs
+++ b/src/packager.rs
@@ -189,7 +189,13 @@ impl<W: Write + Seek + Send> Packager<W> {
             for worksheet in &mut workbook.worksheets {
                 if !worksheet.use_constant_memory {
                     scope.spawn(|| {
+                        #[cfg(vsched)]
+                        crate::vsched::point("assemble", worksheet.sheet_index);
+
                         worksheet.assemble_xml_file();
+
+                        #[cfg(vsched)]
+                        crate::vsched::point("assembled", worksheet.sheet_index);
                     });
                 }
             }
diff --git a/src/vsched.rs b/src/vsched.rs
new file mode 100644
index 0000000..f9467fa
--- /dev/null
+++ b/src/vsched.rs
@@ -0,0 +1,28 @@
+// vsched - A module for choosing the schedule of threads in verification.
+//
+// SPDX-License-Identifier: MIT OR Apache-2.0
+//
+// Copyright 2022-2025, John McNamara, jmcnamara@cpan.org
+
+//! Points at which a verification harness may hold a thread. Only compiled with
+//! `--cfg vsched`.
+
+use std::sync::RwLock;
+
+/// A function which is called with the name of a point and a worksheet index.
+pub type Hook = fn(&str, usize);
+
+static HOOK: RwLock<Option<Hook>> = RwLock::new(None);
+
+/// Set the function to call at each point.
+pub fn set_hook(hook: Option<Hook>) {
+    *HOOK.write().expect("RwLock poisoned") = hook;
+}
+
+// A point at which a thread may be held.
+pub(crate) fn point(name: &str, index: usize) {
+    let hook = *HOOK.read().expect("RwLock poisoned");
+    if let Some(hook) = hook {
+        hook(name, index);
+    }
+}
diff --git a/src/worksheet.rs b/src/worksheet.rs
index 6157716..fa88ab1 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -15169,6 +15169,9 @@ impl Worksheet {
             let string = Arc::from(string);
 
             if self.has_workbook_global_sst {
+                #[cfg(vsched)]
+                crate::vsched::point("string", self.sheet_index);
+
                 let mut string_table = self.string_table.lock().unwrap();
                 string_id = Some(string_table.shared_string_index(Arc::clone(&string)));
             }
@@ -15229,6 +15232,9 @@ impl Worksheet {
         let raw_string = Arc::from(raw_string);
 
         if self.has_workbook_global_sst {
+            #[cfg(vsched)]
+            crate::vsched::point("string", self.sheet_index);
+
             let mut string_table = self.string_table.lock().unwrap();
             string_id = Some(string_table.shared_rich_string_index(Arc::clone(&string)));
         }
@@ -16109,6 +16115,9 @@ impl Worksheet {
         // add the format and create a new index.
         drop(xf_indices);
 
+        #[cfg(vsched)]
+        crate::vsched::point("format", self.sheet_index);
+
         // Add the new format and give it an index, unless another thread has
         // added it since the lookup.
         let mut xf_indices = self.workbook_xf_indices.write().expect("RwLock poisoned");
-- 
2.43.0

