From 8fe69ec09a6171e48ab850c2d134ef71176a3a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:30 +0000
Subject: [PATCH 01/60] fix: merge equal column headers only when they are
 adjacent

---
 src/sheet_.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sheet_.rs b/src/sheet_.rs
index 89eb7d0..eb26ea2 100644
--- a/src/sheet_.rs
+++ b/src/sheet_.rs
@@ -1719,7 +1719,7 @@ pub(crate) fn dedup_colheader(sheet: &mut Sheet) -> Result<(), OdsError> {
                 new = Some((col, header));
             }
             Some((new_col, new_header)) => {
-                if limited_eq(new_header, &header) {
+                if *new_col + new_header.span == col && limited_eq(new_header, &header) {
                     new_header.span += header.span;
                 } else {
                     new_col_header
-- 
2.43.0


From da5b9d5bdb93c7ef19212836f666deb55d57530e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:30 +0000
Subject: [PATCH 02/60] fix: splitting a column header leaves a span of 1 for
 the edited column

---
 src/sheet_.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sheet_.rs b/src/sheet_.rs
index eb26ea2..07f1c4c 100644
--- a/src/sheet_.rs
+++ b/src/sheet_.rs
@@ -686,7 +686,9 @@ impl Sheet {
                         left_hdr = Some((*base_col, tmp));
                     }
 
-                    split_hdr = Some((col, col_header.clone()));
+                    let mut tmp = col_header.clone();
+                    tmp.span = 1;
+                    split_hdr = Some((col, tmp));
 
                     let right_span = (*base_col + col_header.span) - (col + 1);
                     if right_span > 0 {
-- 
2.43.0


From 93cc2a16ff0a1cb2ddb8947ad7079852f336b7e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:30 +0000
Subject: [PATCH 03/60] fix: splitting a row header no longer overwrites the
 header of the next row

---
 src/sheet_.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sheet_.rs b/src/sheet_.rs
index 07f1c4c..169cd26 100644
--- a/src/sheet_.rs
+++ b/src/sheet_.rs
@@ -848,11 +848,11 @@ impl Sheet {
                 }
 
                 // back
-                if *base_row + base_span > row {
+                if *base_row + base_span > row + 1 {
                     let mut clone = row_header.clone();
                     clone.span = *base_row + base_span - (row + 1);
                     cloned.push((row + 1, clone));
-                } else if *base_row + base_span == row {
+                } else if *base_row + base_span == row + 1 {
                     // noop
                 } else {
                     unreachable!();
-- 
2.43.0


From 35a868b88587bbc1a76daabca8008d7e46f9735b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:09 +0000
Subject: [PATCH 04/60] fix: column-wise iteration ends at the range end, size
 hints of row iteration

---
 src/sheet_.rs | 39 +++++++++++++--------------------------
 1 file changed, 13 insertions(+), 26 deletions(-)

diff --git a/src/sheet_.rs b/src/sheet_.rs
index 169cd26..a782982 100644
--- a/src/sheet_.rs
+++ b/src/sheet_.rs
@@ -342,7 +342,7 @@ impl<'a> IterRows<'a> {
             iter: sheet.data.range(range),
             start,
             end,
-            hint: (end.0 - start.0) as usize * (end.1 * start.1) as usize,
+            hint: end.0.saturating_sub(start.0) as usize * end.1.saturating_sub(start.1) as usize,
         }
     }
 }
@@ -413,43 +413,30 @@ impl<'a> IterCols<'a> {
 impl<'a> Iterator for IterCols<'a> {
     type Item = ((u32, u32), CellContentRef<'a>);
 
-    #[allow(clippy::comparison_chain)]
     fn next(&mut self) -> Option<Self::Item> {
-        if self.cell.0 == self.end.0 && self.cell.1 == self.end.1 {
-            return None;
-        }
+        while self.cell.0 < self.end.0 && self.cell.1 < self.end.1 {
+            let (r, c) = self.cell;
 
-        loop {
-            let r = self.cell.0;
-            let c = self.cell.1;
-            let d = self.sheet.cell_ref(self.cell.0, self.cell.1);
-
-            if self.cell.0 + 1 < self.end.0 {
-                self.cell.0 += 1;
-            } else if self.cell.0 + 1 == self.end.0 {
-                if self.cell.1 + 1 < self.end.1 {
-                    self.cell.0 = self.start.0;
-                    self.cell.1 += 1;
-                } else if self.cell.1 + 1 == self.end.1 {
-                    self.cell.0 += 1;
-                    self.cell.1 += 1;
-                } else {
-                    assert_eq!(self.cell, self.end);
-                }
-            } else {
-                assert_eq!(self.cell, self.end);
+            self.cell.0 += 1;
+            if self.cell.0 >= self.end.0 {
+                self.cell.0 = self.start.0;
+                self.cell.1 += 1;
             }
 
-            if let Some(d) = d {
+            if let Some(d) = self.sheet.cell_ref(r, c) {
                 return Some(((r, c), d));
             }
         }
+        None
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
         (
             0,
-            Some((self.end.0 - self.start.0) as usize * (self.end.1 - self.start.1) as usize),
+            Some(
+                self.end.0.saturating_sub(self.start.0) as usize
+                    * self.end.1.saturating_sub(self.start.1) as usize,
+            ),
         )
     }
 }
-- 
2.43.0


From 9050770a5a46fdbf0fd7cb1cbc5393ba810cb9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:59 +0000
Subject: [PATCH 05/60] fix: write durations with sign and full precision, read
 negative and reject overlong ones

---
 src/io/format.rs | 20 ++++++++++++++------
 src/io/parse.rs  | 36 ++++++++++++++++--------------------
 2 files changed, 30 insertions(+), 26 deletions(-)

diff --git a/src/io/format.rs b/src/io/format.rs
index b3ee44f..5787765 100644
--- a/src/io/format.rs
+++ b/src/io/format.rs
@@ -7,14 +7,22 @@ pub(crate) fn format_duration2(v: Duration) -> impl Display {
 
     impl Display for Tmp {
         fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
+            let sign = if self.0 < Duration::zero() { "-" } else { "" };
+            let secs = self.0.num_seconds().unsigned_abs();
+            let nanos = self.0.subsec_nanos().unsigned_abs();
+
             write!(
                 f,
-                "PT{}H{}M{}.{}S",
-                self.0.num_hours(),
-                self.0.num_minutes() % 60,
-                self.0.num_seconds() % 60,
-                self.0.num_milliseconds() % 1000
-            )
+                "{}PT{}H{}M{}",
+                sign,
+                secs / 3600,
+                secs / 60 % 60,
+                secs % 60,
+            )?;
+            if nanos != 0 {
+                write!(f, ".{}", format!("{:09}", nanos).trim_end_matches('0'))?;
+            }
+            write!(f, "S")
         }
     }
 
diff --git a/src/io/parse.rs b/src/io/parse.rs
index 3446c06..40e9d38 100644
--- a/src/io/parse.rs
+++ b/src/io/parse.rs
@@ -342,7 +342,8 @@ fn token_datetime(input: KSpan<'_>) -> KTokenResult<'_, NaiveDateTime> {
 
 #[inline(always)]
 fn token_duration(input: KSpan<'_>) -> KTokenResult<'_, Duration> {
-    let (_, (_, day, time)) = all_consuming(tuple((
+    let (_, (minus, _, day, time)) = all_consuming(tuple((
+        opt(byte(b'-')),
         byte(b'P'),
         // these do not occur?
         //opt(terminated(token_datepart, byte(b'Y'))),
@@ -359,37 +360,32 @@ fn token_duration(input: KSpan<'_>) -> KTokenResult<'_, Duration> {
         ))),
     )))(input)?;
 
-    let mut result = Duration::try_seconds(0).ok_or(nom::Err::Error(KTokenizerError::new(
-        RCode::Duration,
-        input,
-    )))?;
+    let err = || nom::Err::Error(KTokenizerError::new(RCode::Duration, input));
+    let add = |a: Duration, b: Option<Duration>| {
+        b.and_then(|b| a.checked_add(&b)).ok_or_else(err)
+    };
+
+    let mut result = Duration::zero();
     if let Some(day) = day {
-        result += Duration::try_days(day).ok_or(nom::Err::Error(KTokenizerError::new(
-            RCode::Duration,
-            input,
-        )))?;
+        result = add(result, Duration::try_days(day))?;
     }
     if let Some((_, hour, minute, second)) = time {
         if let Some(hour) = hour {
-            result += Duration::try_hours(hour).ok_or(nom::Err::Error(KTokenizerError::new(
-                RCode::Duration,
-                input,
-            )))?;
+            result = add(result, Duration::try_hours(hour))?;
         }
         if let Some(minute) = minute {
-            result += Duration::try_minutes(minute).ok_or(nom::Err::Error(
-                KTokenizerError::new(RCode::Duration, input),
-            ))?;
+            result = add(result, Duration::try_minutes(minute))?;
         }
         if let Some((second, nanos)) = second {
-            result += Duration::try_seconds(second).ok_or(nom::Err::Error(
-                KTokenizerError::new(RCode::Duration, input),
-            ))?;
+            result = add(result, Duration::try_seconds(second))?;
             if let Some(nanos) = nanos {
-                result += Duration::nanoseconds(nanos);
+                result = add(result, Some(Duration::nanoseconds(nanos)))?;
             }
         }
     }
+    if minus.is_some() {
+        result = -result;
+    }
 
     Ok(result)
 }
-- 
2.43.0


From 9d07dcab9d288f120f68721e43fbd7cdad06a49d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:39 +0000
Subject: [PATCH 06/60] fix: write empty rows and columns with their own
 attributes, groups and headers

Row headers, row groups and header rows in gaps between cells or after the last
cell got lost, were moved or lead to unbalanced tags. The same goes for column
groups that end inside a repeated column and column headers after the last cell.
Empty cells covered by a span were not marked as covered.
---
 src/io/write.rs | 347 +++++++++++++++++++++++++++---------------------
 1 file changed, 199 insertions(+), 148 deletions(-)

diff --git a/src/io/write.rs b/src/io/write.rs
index d1291d4..9cb06d8 100644
--- a/src/io/write.rs
+++ b/src/io/write.rs
@@ -22,7 +22,7 @@ use crate::xmltree::{XmlContent, XmlTag};
 use crate::HashMap;
 use crate::{Length, Sheet, Value, ValueType, WorkBook};
 use std::borrow::Cow;
-use std::cmp::max;
+use std::cmp::{max, Reverse};
 use std::collections::{BTreeMap, HashSet};
 use std::fs::File;
 use std::io::{BufWriter, Cursor, Seek, Write};
@@ -1619,8 +1619,6 @@ fn write_sheet(
     let mut prev_row: u32 = 0;
     let mut prev_row_repeat: u32 = 1;
     let mut prev_col: u32 = 0;
-    let mut row_group_count = 0;
-    let mut row_header = false;
 
     let mut it = CellDataIter::new(sheet.data.range(..));
     while let Some(((cur_row, cur_col), cell)) = it.next() {
@@ -1669,14 +1667,7 @@ fn write_sheet(
         // After the first cell there is always an open row tag that
         // needs to be closed.
         if backward_delta_row > 0 && !first_cell {
-            write_end_prev_row(
-                sheet,
-                prev_row,
-                prev_row_repeat,
-                &mut row_group_count,
-                &mut row_header,
-                xml_out,
-            )?;
+            write_end_prev_row(sheet, prev_row, prev_row_repeat, xml_out)?;
         }
 
         // Any empty rows before this one?
@@ -1704,8 +1695,7 @@ fn write_sheet(
                     synth_row,
                     synth_row_repeat,
                     max_cell,
-                    &mut row_group_count,
-                    &mut row_header,
+                    &spans,
                     xml_out,
                 )?;
             }
@@ -1719,8 +1709,7 @@ fn write_sheet(
                 cur_row,
                 cur_row_repeat,
                 backward_delta_col,
-                &mut row_group_count,
-                &mut row_header,
+                &spans,
                 xml_out,
             )?;
         }
@@ -1788,7 +1777,7 @@ fn write_sheet(
         // The last cell we will write? We can close the last row here,
         // where we have all the data.
         if is_last_cell {
-            write_end_last_row(&mut row_group_count, &mut row_header, xml_out)?;
+            write_end_prev_row(sheet, cur_row, cur_row_repeat, xml_out)?;
         }
 
         first_cell = false;
@@ -1797,6 +1786,24 @@ fn write_sheet(
         prev_col = cur_col;
     }
 
+    // There may be row-headers, groups or header-rows after the last cell.
+    let last_row = if first_cell {
+        0
+    } else {
+        prev_row + prev_row_repeat
+    };
+    let max_row = max_row(sheet);
+    if max_row > last_row {
+        write_empty_rows_before(
+            sheet,
+            last_row,
+            max_row - last_row,
+            max_cell,
+            &spans,
+            xml_out,
+        )?;
+    }
+
     xml_out.end_elem("table:table")?;
 
     for tag in &sheet.extra {
@@ -1825,45 +1832,93 @@ fn write_empty_cells(
     Ok(())
 }
 
-fn write_start_current_row(
+/// Row count needed for all row-headers, header-rows and row-groups.
+fn max_row(sheet: &Sheet) -> u32 {
+    let mut max_row = 0;
+    for (row, row_header) in &sheet.row_header {
+        let rows = max(row_header.span, row_header.repeat);
+        max_row = max(max_row, row.saturating_add(rows));
+    }
+    for grp in &sheet.group_rows {
+        max_row = max(max_row, grp.to() + 1);
+    }
+    if let Some(header_rows) = &sheet.header_rows {
+        max_row = max(max_row, header_rows.to + 1);
+    }
+    max_row
+}
+
+/// Are there any header-rows in the range?
+fn is_header_row(sheet: &Sheet, row: u32, row_repeat: u32) -> bool {
+    match &sheet.header_rows {
+        Some(header_rows) => header_rows.from < row + row_repeat && header_rows.to >= row,
+        None => false,
+    }
+}
+
+/// Start groups and header-rows.
+fn write_start_row_groups(
     sheet: &Sheet,
-    cur_row: u32,
-    cur_row_repeat: u32,
-    backward_delta_col: u32,
-    row_group_count: &mut u32,
-    row_header: &mut bool,
+    row: u32,
+    row_repeat: u32,
     xml_out: &mut OdsXmlWriter<'_>,
 ) -> Result<(), OdsError> {
-    // groups
-    for row_group in &sheet.group_rows {
-        if row_group.from() == cur_row {
-            *row_group_count += 1;
-            xml_out.elem("table:table-row-group")?;
-            if !row_group.display() {
-                xml_out.attr_str("table:display", "false")?;
-            }
-        }
-        // extra: if the group would start within our repeat range, it's started
-        //        at the current row instead.
-        if row_group.from() > cur_row && row_group.from() < cur_row + cur_row_repeat {
-            *row_group_count += 1;
-            xml_out.elem("table:table-row-group")?;
-            if !row_group.display() {
-                xml_out.attr_str("table:display", "false")?;
-            }
+    // groups, the outer ones first.
+    // extra: if the group would start within our repeat range, it's started
+    //        at the current row instead.
+    let mut groups: Vec<_> = sheet
+        .group_rows
+        .iter()
+        .filter(|v| v.from() >= row && v.from() < row + row_repeat)
+        .collect();
+    groups.sort_by_key(|v| (v.from(), Reverse(v.to())));
+    for row_group in groups {
+        xml_out.elem("table:table-row-group")?;
+        if !row_group.display() {
+            xml_out.attr_str("table:display", "false")?;
         }
     }
 
     // print-header
-    if let Some(header_rows) = &sheet.header_rows {
-        if header_rows.from >= cur_row && header_rows.from < cur_row + cur_row_repeat {
-            *row_header = true;
-        }
-    }
-    if *row_header {
+    if is_header_row(sheet, row, row_repeat) {
         xml_out.elem("table:table-header-rows")?;
     }
 
+    Ok(())
+}
+
+/// End groups and header-rows.
+fn write_end_row_groups(
+    sheet: &Sheet,
+    row: u32,
+    row_repeat: u32,
+    xml_out: &mut OdsXmlWriter<'_>,
+) -> Result<(), OdsError> {
+    // print-header
+    if is_header_row(sheet, row, row_repeat) {
+        xml_out.end_elem("table:table-header-rows")?;
+    }
+
+    // groups, may end somewhere inside the repeated range.
+    for row_group in &sheet.group_rows {
+        if row_group.to() >= row && row_group.to() < row + row_repeat {
+            xml_out.end_elem("table:table-row-group")?;
+        }
+    }
+
+    Ok(())
+}
+
+fn write_start_current_row(
+    sheet: &Sheet,
+    cur_row: u32,
+    cur_row_repeat: u32,
+    backward_delta_col: u32,
+    spans: &[CellRange],
+    xml_out: &mut OdsXmlWriter<'_>,
+) -> Result<(), OdsError> {
+    write_start_row_groups(sheet, cur_row, cur_row_repeat, xml_out)?;
+
     // row
     xml_out.elem("table:table-row")?;
     if let Some(row_header) = sheet.valid_row_header(cur_row) {
@@ -1883,9 +1938,10 @@ fn write_start_current_row(
 
     // Might not be the first column in this row.
     if backward_delta_col > 0 {
-        xml_out.empty("table:table-cell")?;
-        if backward_delta_col > 1 {
-            xml_out.attr_esc("table:number-columns-repeated", &backward_delta_col)?;
+        let mut split = Vec::new();
+        split_hidden(spans, cur_row, 0, backward_delta_col, &mut split);
+        for s in &split {
+            write_empty_cells(s.hidden, s.repeat(), xml_out)?;
         }
     }
 
@@ -1896,61 +1952,46 @@ fn write_end_prev_row(
     sheet: &Sheet,
     last_r: u32,
     last_r_repeat: u32,
-    row_group_count: &mut u32,
-    row_header: &mut bool,
     xml_out: &mut OdsXmlWriter<'_>,
 ) -> Result<(), OdsError> {
     // row
     xml_out.end_elem("table:table-row")?;
-    if *row_header {
-        xml_out.end_elem("table:table-header-rows")?;
-    }
 
-    // end of the print-header
-    if let Some(header_rows) = &sheet.header_rows {
-        if header_rows.to >= last_r && header_rows.to < last_r + last_r_repeat {
-            *row_header = false;
-        }
-    }
-
-    // groups
-    for row_group in &sheet.group_rows {
-        if row_group.to() == last_r {
-            *row_group_count -= 1;
-            xml_out.end_elem("table:table-row-group")?;
-        }
-        // the group end is somewhere inside the repeated range.
-        if row_group.to() > last_r && row_group.to() < last_r + last_r_repeat {
-            *row_group_count -= 1;
-            xml_out.end_elem("table:table-row-group")?;
-        }
-    }
+    write_end_row_groups(sheet, last_r, last_r_repeat, xml_out)?;
 
     Ok(())
 }
 
-fn write_end_last_row(
-    row_group_count: &mut u32,
-    row_header: &mut bool,
-    xml_out: &mut OdsXmlWriter<'_>,
-) -> Result<(), OdsError> {
-    // row
-    xml_out.end_elem("table:table-row")?;
+/// Splits the empty rows whenever something changes and returns the length of the
+/// first part.
+fn split_empty_rows(sheet: &Sheet, row: u32, row_to: u32, spans: &[CellRange]) -> u32 {
+    let mut end = row_to;
+    let mut split_at = |r: u32| {
+        if r > row && r < end {
+            end = r;
+        }
+    };
 
-    // end of the print-header.
-    // todo: might loose some empty rows?
-    if *row_header {
-        *row_header = false;
-        xml_out.end_elem("table:table-header-rows")?;
+    if let Some((base_row, row_header)) = sheet.row_header.range(..=row).last() {
+        split_at(base_row.saturating_add(max(row_header.span, row_header.repeat)));
     }
-
-    // close all groups
-    while *row_group_count > 0 {
-        *row_group_count -= 1;
-        xml_out.end_elem("table:table-row-group")?;
+    if let Some((base_row, _)) = sheet.row_header.range(row + 1..).next() {
+        split_at(*base_row);
+    }
+    for grp in &sheet.group_rows {
+        split_at(grp.from());
+        split_at(grp.to() + 1);
+    }
+    if let Some(header_rows) = &sheet.header_rows {
+        split_at(header_rows.from);
+        split_at(header_rows.to + 1);
+    }
+    for span in spans {
+        split_at(span.row());
+        split_at(span.to_row() + 1);
     }
 
-    Ok(())
+    end - row
 }
 
 fn write_empty_rows_before(
@@ -1958,52 +1999,27 @@ fn write_empty_rows_before(
     last_row: u32,
     last_row_repeat: u32,
     max_cell: (u32, u32),
-    row_group_count: &mut u32,
-    row_header: &mut bool,
+    spans: &[CellRange],
     xml_out: &mut OdsXmlWriter<'_>,
 ) -> Result<(), OdsError> {
-    // Are there any row groups? Then we don't use repeat but write everything out.
-    if !sheet.group_rows.is_empty() || sheet.header_rows.is_some() {
-        for r in last_row..last_row + last_row_repeat {
-            if *row_header {
-                xml_out.end_elem("table:table-header-rows")?;
-            }
-            // end of the print-header
-            if let Some(header_rows) = &sheet.header_rows {
-                if header_rows.to == r {
-                    *row_header = false;
-                }
-            }
-            // groups
-            for row_group in &sheet.group_rows {
-                if row_group.to() == r {
-                    *row_group_count -= 1;
-                    xml_out.end_elem("table:table-row-group")?;
-                }
-            }
-            for row_group in &sheet.group_rows {
-                if row_group.from() == r {
-                    *row_group_count += 1;
-                    xml_out.elem("table:table-row-group")?;
-                    if !row_group.display() {
-                        xml_out.attr_str("table:display", "false")?;
-                    }
-                }
-            }
-            // start of print-header
-            if let Some(header_rows) = &sheet.header_rows {
-                if header_rows.from == r {
-                    *row_header = true;
-                }
-            }
-            if *row_header {
-                xml_out.elem("table:table-header-rows")?;
-            }
-            // row
-            write_empty_row(sheet, r, 1, max_cell, xml_out)?;
+    let row_to = last_row + last_row_repeat;
+
+    let mut row = last_row;
+    while row < row_to {
+        let repeat = sheet.row_header.get(&row).map(|v| v.repeat).unwrap_or(1);
+        if repeat > row_to - row {
+            return Err(OdsError::Ods(format!(
+                "{}: row-repeat of {} for row {} overlaps with the following row.",
+                sheet.name, repeat, row,
+            )));
         }
-    } else {
-        write_empty_row(sheet, last_row, last_row_repeat, max_cell, xml_out)?;
+        let repeat = max(repeat, split_empty_rows(sheet, row, row_to, spans));
+
+        write_start_row_groups(sheet, row, repeat, xml_out)?;
+        write_empty_row(sheet, row, repeat, max_cell, spans, xml_out)?;
+        write_end_row_groups(sheet, row, repeat, xml_out)?;
+
+        row += repeat;
     }
 
     Ok(())
@@ -2014,6 +2030,7 @@ fn write_empty_row(
     cur_row: u32,
     row_repeat: u32,
     max_cell: (u32, u32),
+    spans: &[CellRange],
     xml_out: &mut OdsXmlWriter<'_>,
 ) -> Result<(), OdsError> {
     xml_out.elem("table:table-row")?;
@@ -2031,8 +2048,11 @@ fn write_empty_row(
     }
 
     // We fill the empty spaces completely up to max columns.
-    xml_out.empty("table:table-cell")?;
-    xml_out.attr("table:number-columns-repeated", &max_cell.1)?;
+    let mut split = Vec::new();
+    split_hidden(spans, cur_row, 0, max_cell.1, &mut split);
+    for s in &split {
+        write_empty_cells(s.hidden, s.repeat(), xml_out)?;
+    }
 
     xml_out.end_elem("table:table-row")?;
 
@@ -2046,6 +2066,12 @@ fn write_table_columns(
 ) -> Result<(), OdsError> {
     // determine column count
     let mut max_col = max_cell.1;
+    for ((_, col), cell) in &sheet.data {
+        max_col = max(max_col, col.saturating_add(cell.repeat));
+    }
+    for (col, col_header) in &sheet.col_header {
+        max_col = max(max_col, col.saturating_add(col_header.span));
+    }
     for grp in &sheet.group_cols {
         max_col = max(max_col, grp.to + 1);
     }
@@ -2053,6 +2079,10 @@ fn write_table_columns(
         max_col = max(max_col, header_cols.to + 1);
     }
 
+    // outer groups first.
+    let mut group_cols: Vec<_> = sheet.group_cols.iter().collect();
+    group_cols.sort_by_key(|v| Reverse(v.to()));
+
     // table:table-column
     let mut c = 0;
     loop {
@@ -2060,7 +2090,7 @@ fn write_table_columns(
             break;
         }
 
-        for grp in &sheet.group_cols {
+        for grp in &group_cols {
             if c == grp.from() {
                 xml_out.elem("table:table-column-group")?;
                 if !grp.display() {
@@ -2077,9 +2107,10 @@ fn write_table_columns(
         }
 
         xml_out.empty("table:table-column")?;
-        let span = if let Some(col_header) = sheet.col_header.get(&c) {
-            if col_header.span > 1 {
-                xml_out.attr_esc("table:number-columns-repeated", &col_header.span)?;
+        let span = split_columns(sheet, c);
+        if let Some(col_header) = sheet.valid_col_header(c) {
+            if span > 1 {
+                xml_out.attr_esc("table:number-columns-repeated", &span)?;
             }
             if let Some(style) = col_header.style.as_ref() {
                 xml_out.attr_esc("table:style-name", style.as_str())?;
@@ -2090,11 +2121,7 @@ fn write_table_columns(
             if col_header.visible != Visibility::Visible {
                 xml_out.attr_esc("table:visibility", &col_header.visible)?;
             }
-
-            col_header.span
-        } else {
-            1
-        };
+        }
 
         if let Some(header_cols) = &sheet.header_cols {
             if c >= header_cols.from && c <= header_cols.to {
@@ -2102,19 +2129,43 @@ fn write_table_columns(
             }
         }
 
+        debug_assert!(span > 0);
+        c += span;
+
         for col_group in &sheet.group_cols {
-            if c == col_group.to() {
+            if c == col_group.to() + 1 {
                 xml_out.end_elem("table:table-column-group")?;
             }
         }
-
-        debug_assert!(span > 0);
-        c += span;
     }
 
     Ok(())
 }
 
+/// Number of columns from the given one up to the next change.
+fn split_columns(sheet: &Sheet, col: u32) -> u32 {
+    let mut end = col + 1;
+    if let Some((base_col, col_header)) = sheet.col_header.range(..=col).last() {
+        end = max(end, base_col.saturating_add(col_header.span));
+    }
+
+    let mut split_at = |c: u32| {
+        if c > col && c < end {
+            end = c;
+        }
+    };
+    for grp in &sheet.group_cols {
+        split_at(grp.from());
+        split_at(grp.to() + 1);
+    }
+    if let Some(header_cols) = &sheet.header_cols {
+        split_at(header_cols.from);
+        split_at(header_cols.to + 1);
+    }
+
+    end - col
+}
+
 #[allow(clippy::single_char_add_str)]
 fn write_cell(
     book: &WorkBook,
-- 
2.43.0


From 62a2675ca47f438c9b678b3a7aa4bfaf2e31a1bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:17 +0000
Subject: [PATCH 07/60] fix: rows and columns with a common style keep their
 own height and width

---
 src/io/parse.rs |  4 +---
 src/io/write.rs | 44 +++++++++++++++++++++++++++++++++++++++-----
 2 files changed, 40 insertions(+), 8 deletions(-)

diff --git a/src/io/parse.rs b/src/io/parse.rs
index 40e9d38..c7e0e4d 100644
--- a/src/io/parse.rs
+++ b/src/io/parse.rs
@@ -361,9 +361,7 @@ fn token_duration(input: KSpan<'_>) -> KTokenResult<'_, Duration> {
     )))(input)?;
 
     let err = || nom::Err::Error(KTokenizerError::new(RCode::Duration, input));
-    let add = |a: Duration, b: Option<Duration>| {
-        b.and_then(|b| a.checked_add(&b)).ok_or_else(err)
-    };
+    let add = |a: Duration, b: Option<Duration>| b.and_then(|b| a.checked_add(&b)).ok_or_else(err);
 
     let mut result = Duration::zero();
     if let Some(day) = day {
diff --git a/src/io/write.rs b/src/io/write.rs
index 9cb06d8..c5f2d99 100644
--- a/src/io/write.rs
+++ b/src/io/write.rs
@@ -12,9 +12,9 @@ use crate::refs::{format_cellranges, CellRange};
 use crate::sheet::Visibility;
 use crate::sheet_::{dedup_colheader, CellDataIter};
 use crate::style::{
-    CellStyle, ColStyle, FontFaceDecl, GraphicStyle, HeaderFooter, MasterPage, MasterPageRef,
-    PageStyle, PageStyleRef, ParagraphStyle, RowStyle, RubyStyle, StyleOrigin, StyleUse,
-    TableStyle, TextStyle,
+    CellStyle, ColStyle, ColStyleRef, FontFaceDecl, GraphicStyle, HeaderFooter, MasterPage,
+    MasterPageRef, PageStyle, PageStyleRef, ParagraphStyle, RowStyle, RowStyleRef, RubyStyle,
+    StyleOrigin, StyleUse, TableStyle, TextStyle,
 };
 use crate::validation::ValidationDisplay;
 use crate::workbook::{EventListener, Script};
@@ -482,6 +482,7 @@ fn calc_col_headers(book: &mut WorkBook) -> Result<(), OdsError> {
 
 /// Sync row/column styles with row/col header values.
 fn calc_col_header_styles(book: &mut WorkBook) -> Result<(), OdsError> {
+    let mut used_styles = HashMap::<ColStyleRef, Vec<(Length, ColStyleRef)>>::new();
     for i in 0..book.num_sheets() {
         let mut sheet = book.detach_sheet(i);
 
@@ -494,12 +495,28 @@ fn calc_col_header_styles(book: &mut WorkBook) -> Result<(), OdsError> {
             }
 
             // Write back to the style.
-            if let Some(style_name) = ch.style.as_ref() {
+            if let Some(style_name) = ch.style.as_mut() {
+                // The same style with another width needs a copy of the style.
+                let used = used_styles.entry(style_name.clone()).or_default();
+                if let Some((_, used_name)) = used.iter().find(|v| v.0 == ch.width) {
+                    *style_name = used_name.clone();
+                    continue;
+                }
+                if !used.is_empty() {
+                    if let Some(style) = book.colstyle(&*style_name) {
+                        let mut style = style.clone();
+                        style.set_name("");
+                        *style_name = book.add_colstyle(style);
+                    }
+                }
+                used.push((ch.width, style_name.clone()));
+
                 if let Some(style) = book.colstyle_mut(style_name) {
                     if ch.width == Length::Default {
                         style.set_use_optimal_col_width(true);
                         style.set_col_width(Length::Default);
                     } else {
+                        style.set_use_optimal_col_width(false);
                         style.set_col_width(ch.width);
                     }
                 }
@@ -514,6 +531,7 @@ fn calc_col_header_styles(book: &mut WorkBook) -> Result<(), OdsError> {
 
 /// Sync row/column styles with row/col header values.
 fn calc_row_header_styles(book: &mut WorkBook) -> Result<(), OdsError> {
+    let mut used_styles = HashMap::<RowStyleRef, Vec<(Length, RowStyleRef)>>::new();
     for i in 0..book.num_sheets() {
         let mut sheet = book.detach_sheet(i);
 
@@ -523,12 +541,28 @@ fn calc_row_header_styles(book: &mut WorkBook) -> Result<(), OdsError> {
                 rh.style = Some(rowstyle);
             }
 
-            if let Some(style_name) = rh.style.as_ref() {
+            if let Some(style_name) = rh.style.as_mut() {
+                // The same style with another height needs a copy of the style.
+                let used = used_styles.entry(style_name.clone()).or_default();
+                if let Some((_, used_name)) = used.iter().find(|v| v.0 == rh.height) {
+                    *style_name = used_name.clone();
+                    continue;
+                }
+                if !used.is_empty() {
+                    if let Some(style) = book.rowstyle(&*style_name) {
+                        let mut style = style.clone();
+                        style.set_name("");
+                        *style_name = book.add_rowstyle(style);
+                    }
+                }
+                used.push((rh.height, style_name.clone()));
+
                 if let Some(style) = book.rowstyle_mut(style_name) {
                     if rh.height == Length::Default {
                         style.set_use_optimal_row_height(true);
                         style.set_row_height(Length::Default);
                     } else {
+                        style.set_use_optimal_row_height(false);
                         style.set_row_height(rh.height);
                     }
                 }
-- 
2.43.0


From 74aeba198d125534e7ddebfb09470efc8f007961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:13 +0000
Subject: [PATCH 08/60] fix: a document that ends early is an error and no
 endless loop

---
 src/io/read.rs | 61 ++++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 61 insertions(+)

diff --git a/src/io/read.rs b/src/io/read.rs
index 3007f60..5393c4f 100644
--- a/src/io/read.rs
+++ b/src/io/read.rs
@@ -262,8 +262,10 @@ fn read_fods_impl(read: &mut dyn BufRead, options: &OdsOptions) -> Result<WorkBo
     let mut xml = quick_xml::Reader::from_reader(read);
 
     let mut buf = ctx.pop_buf();
+    let mut complete = false;
     loop {
         let evt = xml.read_event_into(&mut buf)?;
+        complete |= is_end_tag(&evt, b"office:document");
         if cfg!(feature = "dump_xml") {
             println!("read_fods_content {:?}", evt);
         }
@@ -305,6 +307,11 @@ fn read_fods_impl(read: &mut dyn BufRead, options: &OdsOptions) -> Result<WorkBo
 
             Event::Decl(_) => {}
             Event::Eof => {
+                if !complete {
+                    return Err(OdsError::Ods(
+                        "office:document: unexpected end of file".to_string(),
+                    ));
+                }
                 break;
             }
             _ => {
@@ -330,8 +337,10 @@ fn read_fods_impl_content_only(
     let mut xml: quick_xml::Reader<&mut dyn BufRead> = quick_xml::Reader::from_reader(read);
 
     let mut buf = ctx.pop_buf();
+    let mut complete = false;
     loop {
         let evt = xml.read_event_into(&mut buf)?;
+        complete |= is_end_tag(&evt, b"office:document");
         if cfg!(feature = "dump_xml") {
             println!("read_fods_content_only {:?}", evt);
         }
@@ -341,6 +350,11 @@ fn read_fods_impl_content_only(
                 read_office_body(&mut ctx, &mut xml)?;
             }
             Event::Eof => {
+                if !complete {
+                    return Err(OdsError::Ods(
+                        "office:document: unexpected end of file".to_string(),
+                    ));
+                }
                 break;
             }
             _ => {
@@ -450,8 +464,10 @@ fn read_ods_extras<R: Read + Seek>(
 
 fn read_ods_manifest(ctx: &mut OdsContext, xml: &mut OdsXmlReader<'_>) -> Result<(), OdsError> {
     let mut buf = ctx.pop_buf();
+    let mut complete = false;
     loop {
         let evt = xml.read_event_into(&mut buf)?;
+        complete |= is_end_tag(&evt, b"manifest:manifest");
         match &evt {
             Event::Decl(_) => {}
 
@@ -483,6 +499,11 @@ fn read_ods_manifest(ctx: &mut OdsContext, xml: &mut OdsXmlReader<'_>) -> Result
                 }
             }
             Event::Eof => {
+                if !complete {
+                    return Err(OdsError::Ods(
+                        "manifest:manifest: unexpected end of file".to_string(),
+                    ));
+                }
                 break;
             }
             _ => {
@@ -735,8 +756,10 @@ fn calc_derived(book: &mut WorkBook) -> Result<(), OdsError> {
 // Reads the content.xml
 fn read_ods_content(ctx: &mut OdsContext, xml: &mut OdsXmlReader<'_>) -> Result<(), OdsError> {
     let mut buf = ctx.pop_buf();
+    let mut complete = false;
     loop {
         let evt = xml.read_event_into(&mut buf)?;
+        complete |= is_end_tag(&evt, b"office:document-content");
         if cfg!(feature = "dump_xml") {
             println!(" read_ods_content {:?}", evt);
         }
@@ -773,6 +796,11 @@ fn read_ods_content(ctx: &mut OdsContext, xml: &mut OdsXmlReader<'_>) -> Result<
             }
 
             Event::Eof => {
+                if !complete {
+                    return Err(OdsError::Ods(
+                        "office:document-content: unexpected end of file".to_string(),
+                    ));
+                }
                 break;
             }
             _ => {
@@ -1077,6 +1105,9 @@ fn read_table(
                 col_data |= have_data;
             }
 
+            Event::Eof => {
+                break;
+            }
             _ => {
                 unused_event("read_table", &evt)?;
             }
@@ -3630,8 +3661,10 @@ fn copy_attr2(
 
 fn read_ods_styles(ctx: &mut OdsContext, xml: &mut OdsXmlReader<'_>) -> Result<(), OdsError> {
     let mut buf = ctx.pop_buf();
+    let mut complete = false;
     loop {
         let evt = xml.read_event_into(&mut buf)?;
+        complete |= is_end_tag(&evt, b"office:document-styles");
         if cfg!(feature = "dump_xml") {
             println!(" read_styles {:?}", evt);
         }
@@ -3657,6 +3690,11 @@ fn read_ods_styles(ctx: &mut OdsContext, xml: &mut OdsXmlReader<'_>) -> Result<(
                 read_office_master_styles(ctx, xml, StyleOrigin::Styles)?
             }
             Event::Eof => {
+                if !complete {
+                    return Err(OdsError::Ods(
+                        "office:document-styles: unexpected end of file".to_string(),
+                    ));
+                }
                 break;
             }
             _ => {
@@ -3765,8 +3803,10 @@ pub(crate) fn default_settings() -> Detach<Config> {
 fn read_ods_metadata(ctx: &mut OdsContext, xml: &mut OdsXmlReader<'_>) -> Result<(), OdsError> {
     let mut buf = ctx.pop_buf();
 
+    let mut complete = false;
     loop {
         let evt = xml.read_event_into(&mut buf)?;
+        complete |= is_end_tag(&evt, b"office:document-meta");
         if cfg!(feature = "dump_xml") {
             println!("read_ods_metadata {:?}", evt);
         }
@@ -3784,6 +3824,11 @@ fn read_ods_metadata(ctx: &mut OdsContext, xml: &mut OdsXmlReader<'_>) -> Result
 
             Event::Decl(_) => {}
             Event::Eof => {
+                if !complete {
+                    return Err(OdsError::Ods(
+                        "office:document-meta: unexpected end of file".to_string(),
+                    ));
+                }
                 break;
             }
             _ => {
@@ -4229,8 +4274,10 @@ fn read_metadata_value<T>(
 
 fn read_ods_settings(ctx: &mut OdsContext, xml: &mut OdsXmlReader<'_>) -> Result<(), OdsError> {
     let mut buf = ctx.pop_buf();
+    let mut complete = false;
     loop {
         let evt = xml.read_event_into(&mut buf)?;
+        complete |= is_end_tag(&evt, b"office:document-settings");
         if cfg!(feature = "dump_xml") {
             println!(" read_settings {:?}", evt);
         }
@@ -4249,6 +4296,11 @@ fn read_ods_settings(ctx: &mut OdsContext, xml: &mut OdsXmlReader<'_>) -> Result
             }
 
             Event::Eof => {
+                if !complete {
+                    return Err(OdsError::Ods(
+                        "office:document-settings: unexpected end of file".to_string(),
+                    ));
+                }
                 break;
             }
             _ => {
@@ -5038,6 +5090,15 @@ fn unused_attr(func: &str, tag: &[u8], attr: &Attribute<'_>) -> Result<(), OdsEr
 }
 
 #[inline(always)]
+// Is this the end of the given tag.
+fn is_end_tag(evt: &Event<'_>, name: &[u8]) -> bool {
+    match evt {
+        Event::End(xml_tag) => xml_tag.name().as_ref() == name,
+        Event::Empty(xml_tag) => xml_tag.name().as_ref() == name,
+        _ => false,
+    }
+}
+
 fn unused_event(func: &str, evt: &Event<'_>) -> Result<(), OdsError> {
     if cfg!(feature = "dump_unused") {
         match &evt {
-- 
2.43.0


From d1d9560ca9f196e5fc5d9c9fb0ee54a93c8d46f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:20 +0000
Subject: [PATCH 09/60] fix: errors when opening a part of the package are no
 longer ignored

---
 src/io/read.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/io/read.rs b/src/io/read.rs
index 5393c4f..5648894 100644
--- a/src/io/read.rs
+++ b/src/io/read.rs
@@ -11,6 +11,7 @@ use chrono::{Duration, NaiveDateTime};
 use quick_xml::events::attributes::Attribute;
 use quick_xml::events::{BytesRef, BytesStart, Event};
 use quick_xml::{Decoder, Reader};
+use zip::result::ZipError;
 use zip::ZipArchive;
 
 use crate::attrmap2::AttrMap2;
@@ -376,7 +377,7 @@ fn read_ods_impl<R: Read + Seek>(
 ) -> Result<WorkBook, OdsError> {
     let mut ctx = OdsContext::new(options);
 
-    if let Ok(z) = zip.by_name("META-INF/manifest.xml") {
+    if let Some(z) = optional_entry(zip.by_name("META-INF/manifest.xml"))? {
         let mut read = BufReader::new(z);
         let read: &mut dyn BufRead = &mut read;
         let mut xml = quick_xml::Reader::from_reader(read);
@@ -386,7 +387,7 @@ fn read_ods_impl<R: Read + Seek>(
 
     read_ods_extras(&mut ctx, &mut zip)?;
 
-    if let Ok(z) = zip.by_name("meta.xml") {
+    if let Some(z) = optional_entry(zip.by_name("meta.xml"))? {
         let mut read = BufReader::new(z);
         let read: &mut dyn BufRead = &mut read;
         let mut xml = quick_xml::Reader::from_reader(read);
@@ -394,14 +395,14 @@ fn read_ods_impl<R: Read + Seek>(
         read_ods_metadata(&mut ctx, &mut xml)?;
     }
 
-    if let Ok(z) = zip.by_name("settings.xml") {
+    if let Some(z) = optional_entry(zip.by_name("settings.xml"))? {
         let mut read = BufReader::new(z);
         let read: &mut dyn BufRead = &mut read;
         let mut xml = quick_xml::Reader::from_reader(read);
         read_ods_settings(&mut ctx, &mut xml)?;
     }
 
-    if let Ok(z) = zip.by_name("styles.xml") {
+    if let Some(z) = optional_entry(zip.by_name("styles.xml"))? {
         let mut read = BufReader::new(z);
         let read: &mut dyn BufRead = &mut read;
         let mut xml = quick_xml::Reader::from_reader(read);
@@ -442,6 +443,15 @@ fn read_ods_impl_content_only<R: Read + Seek>(
     Ok(ctx.book)
 }
 
+// The file may be missing, but any other error is an error.
+fn optional_entry<T>(entry: Result<T, ZipError>) -> Result<Option<T>, OdsError> {
+    match entry {
+        Ok(v) => Ok(Some(v)),
+        Err(ZipError::FileNotFound) => Ok(None),
+        Err(e) => Err(e.into()),
+    }
+}
+
 fn read_ods_extras<R: Read + Seek>(
     ctx: &mut OdsContext,
     zip: &mut ZipArchive<R>,
-- 
2.43.0


From cb49c561d12838a2992925a82c3844c0d8110bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:42 +0000
Subject: [PATCH 10/60] fix: read all element forms of rows and columns, empty
 groups and invalid repeat counts

---
 src/io/read.rs | 64 +++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 50 insertions(+), 14 deletions(-)

diff --git a/src/io/read.rs b/src/io/read.rs
index 5648894..a702514 100644
--- a/src/io/read.rs
+++ b/src/io/read.rs
@@ -484,7 +484,9 @@ fn read_ods_manifest(ctx: &mut OdsContext, xml: &mut OdsXmlReader<'_>) -> Result
             Event::Start(xml_tag) if xml_tag.name().as_ref() == b"manifest:manifest" => {}
             Event::End(xml_tag) if xml_tag.name().as_ref() == b"manifest:manifest" => {}
 
-            Event::Empty(xml_tag) if xml_tag.name().as_ref() == b"manifest:file-entry" => {
+            Event::Start(xml_tag) | Event::Empty(xml_tag)
+                if xml_tag.name().as_ref() == b"manifest:file-entry" =>
+            {
                 let mut manifest = Manifest::default();
 
                 for attr in xml_tag.attributes().with_checks(false) {
@@ -1025,8 +1027,11 @@ fn read_table(
             }
             Event::End(xml_tag) if xml_tag.name().as_ref() == b"table:table-column-group" => {
                 if let Some(mut v) = col_group.pop() {
-                    v.set_to(col - 1);
-                    sheet.group_cols.push(v);
+                    // ignore groups without columns
+                    if v.from() < col {
+                        v.set_to(col - 1);
+                        sheet.group_cols.push(v);
+                    }
                 }
             }
 
@@ -1034,7 +1039,9 @@ fn read_table(
                 col_range_from = col;
             }
             Event::End(xml_tag) if xml_tag.name().as_ref() == b"table:table-header-columns" => {
-                if let Some(header_cols) = &mut sheet.header_cols {
+                if col_range_from >= col {
+                    // ignore a header without columns
+                } else if let Some(header_cols) = &mut sheet.header_cols {
                     header_cols.to = col - 1;
                 } else {
                     sheet.header_cols = Some(Header {
@@ -1047,10 +1054,13 @@ fn read_table(
             Event::Start(xml_tag) if xml_tag.name().as_ref() == b"table:table-columns" => {}
             Event::End(xml_tag) if xml_tag.name().as_ref() == b"table:table-columns" => {}
 
-            Event::Empty(xml_tag) if xml_tag.name().as_ref() == b"table:table-column" => {
+            Event::Start(xml_tag) | Event::Empty(xml_tag)
+                if xml_tag.name().as_ref() == b"table:table-column" =>
+            {
                 let col_repeat = read_table_col_attr(ctx, &mut sheet, xml_tag, col)?;
-                col += col_repeat;
+                col = add_repeat(col, col_repeat)?;
             }
+            Event::End(xml_tag) if xml_tag.name().as_ref() == b"table:table-column" => {}
 
             //
             // table rows
@@ -1061,8 +1071,11 @@ fn read_table(
             }
             Event::End(xml_tag) if xml_tag.name().as_ref() == b"table:table-row-group" => {
                 if let Some(mut v) = row_group.pop() {
-                    v.set_to(row - 1);
-                    sheet.group_rows.push(v);
+                    // ignore groups without rows
+                    if v.from() < row {
+                        v.set_to(row - 1);
+                        sheet.group_rows.push(v);
+                    }
                 } else {
                     // there are no unbalanced tags.
                 }
@@ -1072,7 +1085,9 @@ fn read_table(
                 row_range_from = row;
             }
             Event::End(xml_tag) if xml_tag.name().as_ref() == b"table:table-header-rows" => {
-                if let Some(header_rows) = &mut sheet.header_rows {
+                if row_range_from >= row {
+                    // ignore a header without rows
+                } else if let Some(header_rows) = &mut sheet.header_rows {
                     header_rows.to = row - 1;
                 } else {
                     sheet.header_rows = Some(Header {
@@ -1097,10 +1112,14 @@ fn read_table(
                     // row-repeat is ignored unless there is any cell-data in that row.
                     sheet.set_row_repeat(row, row_repeat);
                 }
-                row += row_repeat;
+                row = add_repeat(row, row_repeat)?;
                 row_repeat = 1;
                 col_data = false;
             }
+            Event::Empty(xml_tag) if xml_tag.name().as_ref() == b"table:table-row" => {
+                let repeat = read_table_row_attr(ctx, &mut sheet, row, xml_tag)?;
+                row = add_repeat(row, repeat)?;
+            }
 
             //
             // table cells
@@ -1111,7 +1130,7 @@ fn read_table(
             {
                 let (cell_repeat, have_data) =
                     read_table_cell(ctx, xml, &mut sheet, row, col, xml_tag, empty_tag)?;
-                col += cell_repeat;
+                col = add_repeat(col, cell_repeat)?;
                 col_data |= have_data;
             }
 
@@ -1134,6 +1153,23 @@ fn read_table(
     Ok(())
 }
 
+// Advance by the repeat-count.
+fn add_repeat(pos: u32, repeat: u32) -> Result<u32, OdsError> {
+    pos.checked_add(repeat)
+        .ok_or_else(|| OdsError::Parse("repeat-count too big", Some(repeat.to_string())))
+}
+
+// Parse the repeat-count.
+fn parse_repeat(value: &[u8]) -> Result<u32, OdsError> {
+    match parse_u32(value)? {
+        0 => Err(OdsError::Parse(
+            "invalid repeat-count",
+            Some("0".to_string()),
+        )),
+        v => Ok(v),
+    }
+}
+
 // Reads the table attributes.
 fn read_table_attr(
     ctx: &mut OdsContext,
@@ -1182,7 +1218,7 @@ fn read_table_row_attr(
         match attr? {
             // table:default-cell-style-name 19.615, table:visibility 19.749 and xml:id 19.914.
             attr if attr.key.as_ref() == b"table:number-rows-repeated" => {
-                row_repeat = parse_u32(&attr.value)?;
+                row_repeat = parse_repeat(&attr.value)?;
             }
             attr if attr.key.as_ref() == b"table:style-name" => {
                 let name = attr.decode_and_unescape_value(ctx.decoder)?;
@@ -1280,7 +1316,7 @@ fn read_table_col_attr(
     for attr in super_tag.attributes().with_checks(false) {
         match attr? {
             attr if attr.key.as_ref() == b"table:number-columns-repeated" => {
-                col_repeat = parse_u32(&attr.value)?;
+                col_repeat = parse_repeat(&attr.value)?;
             }
             attr if attr.key.as_ref() == b"table:style-name" => {
                 let name = attr.decode_and_unescape_value(ctx.decoder)?;
@@ -1365,7 +1401,7 @@ fn read_table_cell(
     for attr in super_tag.attributes().with_checks(false) {
         match attr? {
             attr if attr.key.as_ref() == b"table:number-columns-repeated" => {
-                repeat = parse_u32(&attr.value)?;
+                repeat = parse_repeat(&attr.value)?;
             }
             attr if attr.key.as_ref() == b"table:number-rows-spanned" => {
                 let row_span = parse_u32(&attr.value)?;
-- 
2.43.0


From c36e12a73fe0fc8ec3727cce04c024606b179d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:06 +0000
Subject: [PATCH 11/60] fix: spans that go beyond the possible rows/columns

---
 src/io/write.rs | 2 +-
 src/refs.rs     | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/io/write.rs b/src/io/write.rs
index c5f2d99..1faee1b 100644
--- a/src/io/write.rs
+++ b/src/io/write.rs
@@ -2022,7 +2022,7 @@ fn split_empty_rows(sheet: &Sheet, row: u32, row_to: u32, spans: &[CellRange]) -
     }
     for span in spans {
         split_at(span.row());
-        split_at(span.to_row() + 1);
+        split_at(span.to_row().saturating_add(1));
     }
 
     end - row
diff --git a/src/refs.rs b/src/refs.rs
index 63d2e35..6989ec3 100644
--- a/src/refs.rs
+++ b/src/refs.rs
@@ -466,11 +466,11 @@ impl CellRange {
             to_table: None,
             to_row: CRow {
                 row_abs: false,
-                row: row + span.0 - 1,
+                row: row.saturating_add(span.0 - 1),
             },
             to_col: CCol {
                 col_abs: false,
-                col: col + span.1 - 1,
+                col: col.saturating_add(span.1 - 1),
             },
         }
     }
-- 
2.43.0


From 455e7ad4a85e74c4055f7940847193f296cee375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:14 +0000
Subject: [PATCH 12/60] fix: a new cell content has a repeat count of 1, a
 repeat count of 0 is refused

---
 src/cell_.rs  | 18 +++++++++++++++++-
 src/sheet_.rs |  1 +
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/cell_.rs b/src/cell_.rs
index d2c9d70..fa324a8 100644
--- a/src/cell_.rs
+++ b/src/cell_.rs
@@ -395,7 +395,7 @@ impl<'a> CellContentRef<'a> {
 }
 
 /// A copy of the relevant data for a spreadsheet cell.
-#[derive(Debug, Clone, Default)]
+#[derive(Debug, Clone)]
 pub struct CellContent {
     /// Cell value.
     pub value: Value,
@@ -417,6 +417,22 @@ pub struct CellContent {
     pub draw_frames: Vec<DrawFrame>,
 }
 
+impl Default for CellContent {
+    fn default() -> Self {
+        Self {
+            value: Default::default(),
+            style: None,
+            formula: None,
+            repeat: 1,
+            validation_name: None,
+            span: Default::default(),
+            matrix_span: Default::default(),
+            annotation: None,
+            draw_frames: Default::default(),
+        }
+    }
+}
+
 impl CellContent {
     /// Empty.
     #[inline]
diff --git a/src/sheet_.rs b/src/sheet_.rs
index a782982..647ae16 100644
--- a/src/sheet_.rs
+++ b/src/sheet_.rs
@@ -1107,6 +1107,7 @@ impl Sheet {
 
     /// Sets a repeat counter for the cell.
     pub fn set_cell_repeat(&mut self, row: u32, col: u32, repeat: u32) {
+        assert!(repeat > 0);
         let cell = self.data.entry((row, col)).or_default();
         cell.repeat = repeat;
     }
-- 
2.43.0


From d9536489921bbbf153d4609a86f26f2f63d00521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:43 +0000
Subject: [PATCH 13/60] fix: read headings and lists as cell content

---
 src/io/read.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/io/read.rs b/src/io/read.rs
index a702514..c992851 100644
--- a/src/io/read.rs
+++ b/src/io/read.rs
@@ -1520,6 +1520,14 @@ fn read_table_cell(
                     let new_txt = read_text_or_tag(ctx, xml, xml_tag, false)?;
                     tc.content = append_text(new_txt, tc.content);
                 }
+                Event::Start(xml_tag) | Event::Empty(xml_tag)
+                    if xml_tag.name().as_ref() == b"text:h"
+                        || xml_tag.name().as_ref() == b"text:list" =>
+                {
+                    let empty_tag = matches!(evt, Event::Empty(_));
+                    let new_txt = TextContent::Xml(read_xml(ctx, xml, xml_tag, empty_tag)?);
+                    tc.content = append_text(new_txt, tc.content);
+                }
 
                 Event::Start(xml_tag) if xml_tag.name().as_ref() == b"office:annotation" => {
                     let annotation = read_annotation(ctx, xml, xml_tag)?;
-- 
2.43.0


From 09cb35f12587f4249af40dd5bafef9bfbc4c704a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:49 +0000
Subject: [PATCH 14/60] fix: write scripts and event listeners as valid
 elements, read an empty script

---
 src/io/read.rs  |  6 ++++--
 src/io/write.rs | 16 +++++++++++-----
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/io/read.rs b/src/io/read.rs
index c992851..880ecf9 100644
--- a/src/io/read.rs
+++ b/src/io/read.rs
@@ -1924,7 +1924,8 @@ fn read_scripts(ctx: &mut OdsContext, xml: &mut OdsXmlReader<'_>) -> Result<(),
             Event::Start(xml_tag) | Event::Empty(xml_tag)
                 if xml_tag.name().as_ref() == b"office:script" =>
             {
-                let script = read_script(ctx, xml, xml_tag)?;
+                let empty_tag = matches!(evt, Event::Empty(_));
+                let script = read_script(ctx, xml, xml_tag, empty_tag)?;
                 ctx.book.add_script(script);
             }
 
@@ -1958,8 +1959,9 @@ fn read_script(
     ctx: &mut OdsContext,
     xml: &mut OdsXmlReader<'_>,
     super_tag: &BytesStart<'_>,
+    empty_tag: bool,
 ) -> Result<Script, OdsError> {
-    let v = read_xml(ctx, xml, super_tag, false)?;
+    let v = read_xml(ctx, xml, super_tag, empty_tag)?;
     let script: Script = Script {
         script_lang: v
             .get_attr("script:language")
diff --git a/src/io/write.rs b/src/io/write.rs
index 1faee1b..99b8cd8 100644
--- a/src/io/write.rs
+++ b/src/io/write.rs
@@ -1438,10 +1438,16 @@ fn write_office_body(book: &WorkBook, xml_out: &mut OdsXmlWriter<'_>) -> Result<
 }
 
 fn write_office_scripts(book: &WorkBook, xml_out: &mut OdsXmlWriter<'_>) -> Result<(), OdsError> {
-    xml_out.elem_if(!book.scripts.is_empty(), "office:scripts")?;
-    write_scripts(&book.scripts, xml_out)?;
-    write_event_listeners(&book.event_listener, xml_out)?;
-    xml_out.end_elem_if(!book.scripts.is_empty(), "office:scripts")?;
+    if !book.scripts.is_empty() || !book.event_listener.is_empty() {
+        xml_out.elem("office:scripts")?;
+        write_scripts(&book.scripts, xml_out)?;
+        if !book.event_listener.is_empty() {
+            xml_out.elem("office:event-listeners")?;
+            write_event_listeners(&book.event_listener, xml_out)?;
+            xml_out.end_elem("office:event-listeners")?;
+        }
+        xml_out.end_elem("office:scripts")?;
+    }
     Ok(())
 }
 
@@ -2437,7 +2443,7 @@ fn write_scripts(scripts: &Vec<Script>, xml_out: &mut OdsXmlWriter<'_>) -> Resul
             write_xmlcontent(content, xml_out)?;
         }
 
-        xml_out.end_elem("/office:script")?;
+        xml_out.end_elem("office:script")?;
     }
 
     Ok(())
-- 
2.43.0


From 6faa8a2e287b06b43ce4e310cfe5b8813fd537a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:54 +0000
Subject: [PATCH 15/60] fix: write named expressions and conditional formats of
 a sheet inside its table

---
 src/io/write.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io/write.rs b/src/io/write.rs
index 99b8cd8..60b517d 100644
--- a/src/io/write.rs
+++ b/src/io/write.rs
@@ -1844,14 +1844,14 @@ fn write_sheet(
         )?;
     }
 
-    xml_out.end_elem("table:table")?;
-
     for tag in &sheet.extra {
         if tag.name() == "table:named-expressions" || tag.name() == "calcext:conditional-formats" {
             write_xmltag(tag, xml_out)?;
         }
     }
 
+    xml_out.end_elem("table:table")?;
+
     Ok(())
 }
 
-- 
2.43.0


From 74b001cc0f47068a53cfd9a8afdace1ad4fc1eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:40 +0000
Subject: [PATCH 16/60] fix: attaching or removing a sheet at the wrong place
 no longer corrupts the sheet list

---
 src/workbook_.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/workbook_.rs b/src/workbook_.rs
index d1c1eaa..2734acc 100644
--- a/src/workbook_.rs
+++ b/src/workbook_.rs
@@ -404,8 +404,11 @@ impl WorkBook {
     /// Panics
     ///
     /// Panics if n is out of bounds.
+    /// Panics if there is no detached sheet at this place.
     pub fn attach_sheet(&mut self, sheet: Detached<usize, Sheet>) {
-        self.sheets[Detached::key(&sheet)].attach(sheet)
+        let n = Detached::key(&sheet);
+        assert!(self.sheets[n].is_detached(), "not detached");
+        self.sheets[n].attach(sheet)
     }
 
     /// Returns a certain sheet.
@@ -447,6 +450,7 @@ impl WorkBook {
     ///
     /// Panics if the sheet was detached.
     pub fn remove_sheet(&mut self, n: usize) -> Sheet {
+        assert!(!self.sheets[n].is_detached(), "already detached");
         self.sheets.remove(n).take()
     }
 
-- 
2.43.0


From 00643a693bf34971c41134bc6bb956c6e8826559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:40 +0000
Subject: [PATCH 17/60] fix: all fonts of a font list belong to the same part
 of the document

---
 src/io/read.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/read.rs b/src/io/read.rs
index 880ecf9..0ba5580 100644
--- a/src/io/read.rs
+++ b/src/io/read.rs
@@ -2032,7 +2032,7 @@ fn read_office_font_face_decls(
                 ctx.book.add_font(font);
 
                 font = FontFaceDecl::new_empty();
-                font.set_origin(StyleOrigin::Content);
+                font.set_origin(origin);
             }
             Event::End(xml_tag) if xml_tag.name().as_ref() == b"office:font-face-decls" => {
                 break;
-- 
2.43.0


From c3c9fab6d9b89ea4f49caea369abd1c09991cb75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:40 +0000
Subject: [PATCH 18/60] fix: read nested elements of the same name and CDATA
 sections

---
 src/io/read.rs | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/src/io/read.rs b/src/io/read.rs
index 0ba5580..87ace02 100644
--- a/src/io/read.rs
+++ b/src/io/read.rs
@@ -4834,8 +4834,8 @@ fn read_xml(
                     copy_attr2(ctx, tag.attrmap_mut(), xml_tag)?;
                     stack.push(tag);
                 }
-                Event::End(xml_tag) => {
-                    if xml_tag.name() == super_tag.name() {
+                Event::End(_) => {
+                    if stack.len() == 1 {
                         break;
                     } else {
                         let tag = stack.pop().expect("valid stack");
@@ -4870,6 +4870,13 @@ fn read_xml(
                         unreachable!()
                     }
                 }
+                Event::CData(xml_text) => {
+                    if let Some(parent) = stack.last_mut() {
+                        parent.add_text(xml_text.decode()?.as_ref());
+                    } else {
+                        unreachable!()
+                    }
+                }
                 Event::Eof => {
                     break;
                 }
@@ -4988,8 +4995,12 @@ fn read_text_or_tag(
                         }
                     };
                 }
-                Event::Text(xml_text) => {
-                    let v = xml_text.decode()?;
+                Event::Text(_) | Event::CData(_) => {
+                    let v = match &evt {
+                        Event::Text(xml_text) => xml_text.decode()?,
+                        Event::CData(xml_text) => xml_text.decode()?,
+                        _ => unreachable!(),
+                    };
 
                     cellcontent = match cellcontent {
                         TextContent::Empty => {
@@ -5011,14 +5022,7 @@ fn read_text_or_tag(
                         }
                     };
                 }
-                Event::End(xml_tag) if xml_tag.name() == super_tag.name() => {
-                    if !stack.is_empty() {
-                        return Err(OdsError::Ods(format!(
-                            "XML corrupted. Endtag {} occured before all elements are closed: {:?}",
-                            from_utf8(super_tag.name().as_ref())?,
-                            stack
-                        )));
-                    }
+                Event::End(_) if stack.is_empty() => {
                     break;
                 }
                 Event::End(xml_tag) => {
@@ -5092,6 +5096,9 @@ where
                 Event::Text(xml_text) => {
                     result_buf.extend_from_slice(xml_text.as_ref());
                 }
+                Event::CData(xml_text) => {
+                    result_buf.extend_from_slice(xml_text.as_ref());
+                }
                 Event::End(xml_tag) if xml_tag.name() == super_tag.name() => {
                     break;
                 }
-- 
2.43.0


From bd779d71eb3dedabe1605e0c7fe1d3ad61312c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:40 +0000
Subject: [PATCH 19/60] fix: messages of content validations stay with their
 validation

---
 src/io/read.rs  | 56 ++++++++++++++++++++++++-------------------------
 src/io/write.rs | 22 ++++++++++++++++---
 2 files changed, 46 insertions(+), 32 deletions(-)

diff --git a/src/io/read.rs b/src/io/read.rs
index 87ace02..eb2f974 100644
--- a/src/io/read.rs
+++ b/src/io/read.rs
@@ -46,7 +46,7 @@ use crate::style::{
 use crate::text::{TextP, TextTag};
 use crate::validation::{MessageType, Validation, ValidationError, ValidationHelp, ValidationRef};
 use crate::workbook::{EventListener, Script};
-use crate::xmltree::XmlTag;
+use crate::xmltree::{XmlContent, XmlTag};
 use crate::{
     CellStyle, CellStyleRef, Length, Sheet, Value, ValueFormatBoolean, ValueFormatCurrency,
     ValueFormatDateTime, ValueFormatNumber, ValueFormatPercentage, ValueFormatText,
@@ -2159,7 +2159,7 @@ fn read_validations(ctx: &mut OdsContext, xml: &mut OdsXmlReader<'_>) -> Result<
             println!(" read_validations {:?}", evt);
         }
         match &evt {
-            Event::Start(xml_tag) if xml_tag.name().as_ref() == b"table:content-validation" => {
+            Event::Empty(xml_tag) if xml_tag.name().as_ref() == b"table:content-validation" => {
                 read_validation(ctx, &mut valid, xml_tag)?;
                 ctx.book.add_validation(valid);
                 valid = Validation::new();
@@ -2224,24 +2224,34 @@ fn read_validation_help(
             }
         }
     }
-    let txt = read_text_or_tag(ctx, xml, super_tag, empty_tag)?;
-    match txt {
-        TextContent::Empty => {}
-        TextContent::Xml(txt) => {
-            vh.set_text(Some(txt));
-        }
-        _ => {
-            return Err(OdsError::Ods(format!(
-                "table:help-message invalid {:?}",
-                txt
-            )));
-        }
-    }
+    vh.set_text(read_validation_text(ctx, xml, super_tag, empty_tag)?);
 
     valid.set_help(Some(vh));
     Ok(())
 }
 
+// Reads the text of a message. If there is more than one element, they are all kept within
+// the element of the message.
+fn read_validation_text(
+    ctx: &mut OdsContext,
+    xml: &mut OdsXmlReader<'_>,
+    super_tag: &BytesStart<'_>,
+    empty_tag: bool,
+) -> Result<Option<TextTag>, OdsError> {
+    let mut tag = read_xml(ctx, xml, super_tag, empty_tag)?;
+    *tag.attrmap_mut() = AttrMap2::default();
+    tag.content_mut().retain(|v| match v {
+        XmlContent::Text(v) => !v.trim().is_empty(),
+        XmlContent::Tag(_) => true,
+    });
+
+    match tag.content().as_slice() {
+        [] => Ok(None),
+        [XmlContent::Tag(v)] => Ok(Some(v.clone())),
+        _ => Ok(Some(tag)),
+    }
+}
+
 fn read_validation_error(
     ctx: &mut OdsContext,
     xml: &mut OdsXmlReader<'_>,
@@ -2280,19 +2290,7 @@ fn read_validation_error(
             }
         }
     }
-    let txt = read_text_or_tag(ctx, xml, super_tag, empty_tag)?;
-    match txt {
-        TextContent::Empty => {}
-        TextContent::Xml(txt) => {
-            ve.set_text(Some(txt));
-        }
-        _ => {
-            return Err(OdsError::Ods(format!(
-                "table:error-message invalid {:?}",
-                txt
-            )));
-        }
-    }
+    ve.set_text(read_validation_text(ctx, xml, super_tag, empty_tag)?);
 
     valid.set_err(Some(ve));
 
@@ -2312,7 +2310,7 @@ fn read_validation(
             attr if attr.key.as_ref() == b"table:condition" => {
                 // split off 'of:' prefix
                 let v = attr.decode_and_unescape_value(ctx.decoder)?;
-                valid.set_condition(Condition::new(v.split_at(3).1));
+                valid.set_condition(Condition::new(v.strip_prefix("of:").unwrap_or(&v)));
             }
             attr if attr.key.as_ref() == b"table:allow-empty-cell" => {
                 valid.set_allow_empty(parse_bool(&attr.value)?);
diff --git a/src/io/write.rs b/src/io/write.rs
index 60b517d..956607c 100644
--- a/src/io/write.rs
+++ b/src/io/write.rs
@@ -1469,7 +1469,7 @@ fn write_content_validations(
             xml_out.attr_str(
                 "table:display-list",
                 match valid.display() {
-                    ValidationDisplay::NoDisplay => "no",
+                    ValidationDisplay::NoDisplay => "none",
                     ValidationDisplay::Unsorted => "unsorted",
                     ValidationDisplay::SortAscending => "sort-ascending",
                 },
@@ -1484,7 +1484,7 @@ fn write_content_validations(
                     xml_out.attr_esc("table:title", title)?;
                 }
                 if let Some(text) = err.text() {
-                    write_xmltag(text, xml_out)?;
+                    write_validation_text("table:error-message", text, xml_out)?;
                 }
                 xml_out.end_elem_if(err.text().is_some(), "table:error-message")?;
             }
@@ -1495,7 +1495,7 @@ fn write_content_validations(
                     xml_out.attr_esc("table:title", title)?;
                 }
                 if let Some(text) = err.text() {
-                    write_xmltag(text, xml_out)?;
+                    write_validation_text("table:help-message", text, xml_out)?;
                 }
                 xml_out.end_elem_if(err.text().is_some(), "table:help-message")?;
             }
@@ -1508,6 +1508,22 @@ fn write_content_validations(
     Ok(())
 }
 
+// Several elements are kept within the element of the message.
+fn write_validation_text(
+    name: &str,
+    text: &XmlTag,
+    xml_out: &mut OdsXmlWriter<'_>,
+) -> Result<(), OdsError> {
+    if text.name() == name {
+        for c in text.content() {
+            write_xmlcontent(c, xml_out)?;
+        }
+    } else {
+        write_xmltag(text, xml_out)?;
+    }
+    Ok(())
+}
+
 #[derive(Debug)]
 struct SplitCols {
     col: u32,
-- 
2.43.0


From 140caaa5373c051d3fd08a02690342118830bf99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:16 +0000
Subject: [PATCH 20/60] fix: flush the flat file, errors are reported

---
 src/io/write.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/io/write.rs b/src/io/write.rs
index 956607c..8860679 100644
--- a/src/io/write.rs
+++ b/src/io/write.rs
@@ -142,9 +142,10 @@ pub fn write_fods_to<T: Write + Seek>(book: &mut WorkBook, mut write: T) -> Resu
 /// Writes the FODS file.
 pub fn write_fods<P: AsRef<Path>>(book: &mut WorkBook, fods_path: P) -> Result<(), OdsError> {
     let mut write = BufWriter::new(File::create(fods_path)?);
-    let write: &mut dyn Write = &mut write;
 
-    write_fods_impl(write, book)?;
+    write_fods_impl(&mut write, book)?;
+
+    write.flush()?;
 
     Ok(())
 }
-- 
2.43.0


From 573d96bb2e2b08ebaebb667099bf3cedd19b98dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:16 +0000
Subject: [PATCH 21/60] fix: keep the namespaces of all parts for flat files

---
 src/io/mod.rs   |  6 +++++
 src/io/write.rs | 70 ++++++++++---------------------------------------
 2 files changed, 20 insertions(+), 56 deletions(-)

diff --git a/src/io/mod.rs b/src/io/mod.rs
index c29bced..100b543 100644
--- a/src/io/mod.rs
+++ b/src/io/mod.rs
@@ -31,6 +31,12 @@ impl NamespaceMap {
         self.map.insert(Cow::Borrowed(k), Cow::Borrowed(v));
     }
 
+    pub(crate) fn insert_all(&mut self, other: &NamespaceMap) {
+        for (k, v) in other.entries() {
+            self.map.insert(k.clone(), v.clone());
+        }
+    }
+
     pub(crate) fn entries(&self) -> impl Iterator<Item = (&Cow<'static, str>, &Cow<'static, str>)> {
         self.map.iter()
     }
diff --git a/src/io/write.rs b/src/io/write.rs
index 8860679..72b5335 100644
--- a/src/io/write.rs
+++ b/src/io/write.rs
@@ -164,62 +164,12 @@ fn write_fods_impl(writer: &mut dyn Write, book: &mut WorkBook) -> Result<(), Od
     Ok(())
 }
 
-fn convert(book: &mut WorkBook) -> Result<(), OdsError> {
-    for v in book.tablestyles.values_mut() {
-        v.set_origin(StyleOrigin::Content);
-    }
-    for v in book.rowstyles.values_mut() {
-        v.set_origin(StyleOrigin::Content);
-    }
-    for v in book.colstyles.values_mut() {
-        v.set_origin(StyleOrigin::Content);
-    }
-    for v in book.cellstyles.values_mut() {
-        v.set_origin(StyleOrigin::Content);
-    }
-    for v in book.paragraphstyles.values_mut() {
-        v.set_origin(StyleOrigin::Content);
-    }
-    for v in book.textstyles.values_mut() {
-        v.set_origin(StyleOrigin::Content);
-    }
-    for v in book.rubystyles.values_mut() {
-        v.set_origin(StyleOrigin::Content);
-    }
-    for v in book.graphicstyles.values_mut() {
-        v.set_origin(StyleOrigin::Content);
-    }
-
-    for v in book.formats_boolean.values_mut() {
-        v.set_origin(StyleOrigin::Content);
-    }
-    for v in book.formats_number.values_mut() {
-        v.set_origin(StyleOrigin::Content);
-    }
-    for v in book.formats_percentage.values_mut() {
-        v.set_origin(StyleOrigin::Content);
-    }
-    for v in book.formats_currency.values_mut() {
-        v.set_origin(StyleOrigin::Content);
-    }
-    for v in book.formats_text.values_mut() {
-        v.set_origin(StyleOrigin::Content);
-    }
-    for v in book.formats_datetime.values_mut() {
-        v.set_origin(StyleOrigin::Content);
-    }
-    for v in book.formats_timeduration.values_mut() {
-        v.set_origin(StyleOrigin::Content);
-    }
-
-    Ok(())
-}
-
 fn write_fods_content(book: &mut WorkBook, xml_out: &mut OdsXmlWriter<'_>) -> Result<(), OdsError> {
-    let xmlns = book
-        .xmlns
-        .entry("meta.xml".into())
-        .or_insert_with(NamespaceMap::new);
+    // All the parts are written as one document.
+    let mut xmlns = NamespaceMap::new();
+    for part in book.xmlns.values() {
+        xmlns.insert_all(part);
+    }
 
     xmlns.insert_str(
         "xmlns:office",
@@ -318,7 +268,7 @@ fn write_fods_content(book: &mut WorkBook, xml_out: &mut OdsXmlWriter<'_>) -> Re
     xml_out.dtd("UTF-8")?;
 
     xml_out.elem("office:document")?;
-    write_xmlns(xmlns, xml_out)?;
+    write_xmlns(&xmlns, xml_out)?;
     xml_out.attr_esc("office:version", book.version())?;
     xml_out.attr_esc(
         "office:mimetype",
@@ -1174,10 +1124,14 @@ fn write_config_item(
 }
 
 fn write_ods_styles(book: &mut WorkBook, xml_out: &mut OdsXmlWriter<'_>) -> Result<(), OdsError> {
+    let fods_xmlns = book.xmlns.get("fods.xml").cloned();
     let xmlns = book
         .xmlns
         .entry("styles.xml".into())
         .or_insert_with(NamespaceMap::new);
+    if let Some(fods_xmlns) = &fods_xmlns {
+        xmlns.insert_all(fods_xmlns);
+    }
 
     xmlns.insert_str(
         "xmlns:meta",
@@ -1281,10 +1235,14 @@ fn write_ods_styles(book: &mut WorkBook, xml_out: &mut OdsXmlWriter<'_>) -> Resu
 }
 
 fn write_ods_content(book: &mut WorkBook, xml_out: &mut OdsXmlWriter<'_>) -> Result<(), OdsError> {
+    let fods_xmlns = book.xmlns.get("fods.xml").cloned();
     let xmlns = book
         .xmlns
         .entry("content.xml".into())
         .or_insert_with(NamespaceMap::new);
+    if let Some(fods_xmlns) = &fods_xmlns {
+        xmlns.insert_all(fods_xmlns);
+    }
 
     xmlns.insert_str(
         "xmlns:meta",
-- 
2.43.0


From 9a989510a790077de43422e3cf43fd1f8035f976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:16 +0000
Subject: [PATCH 22/60] fix: no line breaks within the content of carried along
 elements

---
 src/io/write.rs     | 14 ++++++--------
 src/io/xmlwriter.rs |  5 +++++
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/io/write.rs b/src/io/write.rs
index 72b5335..2d317e2 100644
--- a/src/io/write.rs
+++ b/src/io/write.rs
@@ -2414,9 +2414,11 @@ fn write_scripts(scripts: &Vec<Script>, xml_out: &mut OdsXmlWriter<'_>) -> Resul
         xml_out.elem("office:script")?;
         xml_out.attr_esc("script:language", &script.script_lang)?;
 
+        let line_break = xml_out.set_line_break(false);
         for content in &script.script {
             write_xmlcontent(content, xml_out)?;
         }
+        xml_out.set_line_break(line_break);
 
         xml_out.end_elem("office:script")?;
     }
@@ -3204,16 +3206,12 @@ fn write_xmltag(x: &XmlTag, xml_out: &mut OdsXmlWriter<'_>) -> Result<(), OdsErr
         xml_out.attr_esc(k.as_ref(), v)?;
     }
 
+    // whitespace is relevant for the content.
+    let line_break = xml_out.set_line_break(false);
     for c in x.content() {
-        match c {
-            XmlContent::Text(t) => {
-                xml_out.text_esc(t)?;
-            }
-            XmlContent::Tag(t) => {
-                write_xmltag(t, xml_out)?;
-            }
-        }
+        write_xmlcontent(c, xml_out)?;
     }
+    xml_out.set_line_break(line_break);
 
     xml_out.end_elem_if(!x.is_empty(), x.name())?;
 
diff --git a/src/io/xmlwriter.rs b/src/io/xmlwriter.rs
index 451e228..d4600a4 100644
--- a/src/io/xmlwriter.rs
+++ b/src/io/xmlwriter.rs
@@ -109,6 +109,11 @@ impl<W: Write> XmlWriter<W> {
         self
     }
 
+    /// Changes the line-break mode, returns the previous one.
+    pub(crate) fn set_line_break(&mut self, line_break: bool) -> bool {
+        std::mem::replace(&mut self.line_break, line_break)
+    }
+
     /// Write the DTD. You have to take care of the encoding
     /// on the underlying Write yourself.
     pub(crate) fn dtd(&mut self, encoding: &str) -> io::Result<()> {
-- 
2.43.0


From 17f49e308be2cd350b61aee3887c6768183b9742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:16 +0000
Subject: [PATCH 23/60] fix: keep tabs and line breaks in attributes and
 carriage returns

---
 src/io/xmlwriter.rs | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/io/xmlwriter.rs b/src/io/xmlwriter.rs
index d4600a4..d37ced1 100644
--- a/src/io/xmlwriter.rs
+++ b/src/io/xmlwriter.rs
@@ -165,7 +165,7 @@ impl<W: Write> XmlWriter<W> {
         self.buf.push_str(name);
         self.buf.push('>');
 
-        self.escape(text)?;
+        self.escape(text, false)?;
 
         self.buf.push('<');
         self.buf.push('/');
@@ -301,14 +301,14 @@ impl<W: Write> XmlWriter<W> {
         self.escape_name(name)?;
         self.buf.push('=');
         self.buf.push('"');
-        self.escape(value)?;
+        self.escape(value, true)?;
         self.buf.push('"');
         Ok(())
     }
 
     /// Escape text
-    fn escape<T: Display + ?Sized>(&mut self, text: &T) -> io::Result<()> {
-        fn escape_impl(text: &[u8], tmp2: &mut Vec<u8>) {
+    fn escape<T: Display + ?Sized>(&mut self, text: &T, attr: bool) -> io::Result<()> {
+        fn escape_impl(text: &[u8], tmp2: &mut Vec<u8>, attr: bool) {
             tmp2.clear();
             for c in text {
                 match c {
@@ -327,6 +327,16 @@ impl<W: Write> XmlWriter<W> {
                     b'>' => {
                         let _ = write!(tmp2, "&gt;");
                     }
+                    // would be changed by the normalization of the parser.
+                    b'\r' => {
+                        let _ = write!(tmp2, "&#13;");
+                    }
+                    b'\t' if attr => {
+                        let _ = write!(tmp2, "&#9;");
+                    }
+                    b'\n' if attr => {
+                        let _ = write!(tmp2, "&#10;");
+                    }
                     _ => tmp2.push(*c),
                 };
             }
@@ -334,7 +344,7 @@ impl<W: Write> XmlWriter<W> {
 
         self.tmp.clear();
         let _ = write!(self.tmp, "{}", text);
-        escape_impl(&self.tmp, &mut self.tmp2);
+        escape_impl(&self.tmp, &mut self.tmp2, attr);
         // Safety: this is always from a string buffer.
         unsafe {
             self.buf.push_str(from_utf8_unchecked(&self.tmp2));
@@ -400,7 +410,7 @@ impl<W: Write> XmlWriter<W> {
     /// Write a text, escapes the text automatically
     pub(crate) fn text_esc<T: Display + ?Sized>(&mut self, text: &T) -> io::Result<()> {
         self.close_elem()?;
-        self.escape(text)?;
+        self.escape(text, false)?;
         Ok(())
     }
 
-- 
2.43.0


From 64315a9111b42c62053cd4c33a96c47160afe418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:16 +0000
Subject: [PATCH 24/60] fix: flat files contain all fonts, writing them doesn't
 change the styles

---
 src/io/write.rs | 57 ++++++++++++++++++++++++++-----------------------
 1 file changed, 30 insertions(+), 27 deletions(-)

diff --git a/src/io/write.rs b/src/io/write.rs
index 2d317e2..d61a993 100644
--- a/src/io/write.rs
+++ b/src/io/write.rs
@@ -156,8 +156,6 @@ fn write_fods_impl(writer: &mut dyn Write, book: &mut WorkBook) -> Result<(), Od
     sanity_checks(book)?;
     calculations(book)?;
 
-    convert(book)?;
-
     let mut xml_out = XmlWriter::new(writer).line_break(true);
     write_fods_content(book, &mut xml_out)?;
 
@@ -278,9 +276,9 @@ fn write_fods_content(book: &mut WorkBook, xml_out: &mut OdsXmlWriter<'_>) -> Re
     write_office_meta(book, xml_out)?;
     write_office_settings(book, xml_out)?;
     write_office_scripts(book, xml_out)?;
-    write_office_font_face_decls(book, StyleOrigin::Content, xml_out)?;
-    write_office_styles(book, StyleOrigin::Content, xml_out)?;
-    write_office_automatic_styles(book, StyleOrigin::Content, xml_out)?;
+    write_office_font_face_decls(book, None, xml_out)?;
+    write_office_styles(book, None, xml_out)?;
+    write_office_automatic_styles(book, None, xml_out)?;
     write_office_master_styles(book, xml_out)?;
     write_office_body(book, xml_out)?;
 
@@ -1222,9 +1220,9 @@ fn write_ods_styles(book: &mut WorkBook, xml_out: &mut OdsXmlWriter<'_>) -> Resu
     write_xmlns(xmlns, xml_out)?;
     xml_out.attr_esc("office:version", book.version())?;
 
-    write_office_font_face_decls(book, StyleOrigin::Styles, xml_out)?;
-    write_office_styles(book, StyleOrigin::Styles, xml_out)?;
-    write_office_automatic_styles(book, StyleOrigin::Styles, xml_out)?;
+    write_office_font_face_decls(book, Some(StyleOrigin::Styles), xml_out)?;
+    write_office_styles(book, Some(StyleOrigin::Styles), xml_out)?;
+    write_office_automatic_styles(book, Some(StyleOrigin::Styles), xml_out)?;
     write_office_master_styles(book, xml_out)?;
 
     xml_out.end_elem("office:document-styles")?;
@@ -1341,8 +1339,8 @@ fn write_ods_content(book: &mut WorkBook, xml_out: &mut OdsXmlWriter<'_>) -> Res
     xml_out.attr_esc("office:version", book.version())?;
 
     write_office_scripts(book, xml_out)?;
-    write_office_font_face_decls(book, StyleOrigin::Content, xml_out)?;
-    write_office_automatic_styles(book, StyleOrigin::Content, xml_out)?;
+    write_office_font_face_decls(book, Some(StyleOrigin::Content), xml_out)?;
+    write_office_automatic_styles(book, Some(StyleOrigin::Content), xml_out)?;
 
     write_office_body(book, xml_out)?;
 
@@ -2445,7 +2443,7 @@ fn write_event_listeners(
 
 fn write_office_font_face_decls(
     book: &WorkBook,
-    origin: StyleOrigin,
+    origin: Option<StyleOrigin>,
     xml_out: &mut OdsXmlWriter<'_>,
 ) -> Result<(), OdsError> {
     xml_out.elem_if(!book.fonts.is_empty(), "office:font-face-decls")?;
@@ -2456,10 +2454,10 @@ fn write_office_font_face_decls(
 
 fn write_style_font_face(
     fonts: &HashMap<String, FontFaceDecl>,
-    origin: StyleOrigin,
+    origin: Option<StyleOrigin>,
     xml_out: &mut OdsXmlWriter<'_>,
 ) -> Result<(), OdsError> {
-    for font in fonts.values().filter(|s| s.origin() == origin) {
+    for font in fonts.values().filter(|s| is_origin(s.origin(), origin)) {
         xml_out.empty("style:font-face")?;
         xml_out.attr_esc("style:name", font.name())?;
         for (a, v) in font.attrmap().iter() {
@@ -2471,7 +2469,7 @@ fn write_style_font_face(
 
 fn write_office_styles(
     book: &WorkBook,
-    origin: StyleOrigin,
+    origin: Option<StyleOrigin>,
     xml_out: &mut OdsXmlWriter<'_>,
 ) -> Result<(), OdsError> {
     xml_out.elem("office:styles")?;
@@ -2485,7 +2483,7 @@ fn write_office_styles(
 
 fn write_office_automatic_styles(
     book: &WorkBook,
-    origin: StyleOrigin,
+    origin: Option<StyleOrigin>,
     xml_out: &mut OdsXmlWriter<'_>,
 ) -> Result<(), OdsError> {
     xml_out.elem("office:automatic-styles")?;
@@ -2506,49 +2504,54 @@ fn write_office_master_styles(
     Ok(())
 }
 
+// Part of the document, or everything for a flat document.
+fn is_origin(origin: StyleOrigin, part: Option<StyleOrigin>) -> bool {
+    part.is_none() || part == Some(origin)
+}
+
 fn write_styles(
     book: &WorkBook,
-    origin: StyleOrigin,
+    origin: Option<StyleOrigin>,
     styleuse: StyleUse,
     xml_out: &mut OdsXmlWriter<'_>,
 ) -> Result<(), OdsError> {
     for style in book.colstyles.values() {
-        if style.origin() == origin && style.styleuse() == styleuse {
+        if is_origin(style.origin(), origin) && style.styleuse() == styleuse {
             write_colstyle(style, xml_out)?;
         }
     }
     for style in book.rowstyles.values() {
-        if style.origin() == origin && style.styleuse() == styleuse {
+        if is_origin(style.origin(), origin) && style.styleuse() == styleuse {
             write_rowstyle(style, xml_out)?;
         }
     }
     for style in book.tablestyles.values() {
-        if style.origin() == origin && style.styleuse() == styleuse {
+        if is_origin(style.origin(), origin) && style.styleuse() == styleuse {
             write_tablestyle(style, xml_out)?;
         }
     }
     for style in book.cellstyles.values() {
-        if style.origin() == origin && style.styleuse() == styleuse {
+        if is_origin(style.origin(), origin) && style.styleuse() == styleuse {
             write_cellstyle(style, xml_out)?;
         }
     }
     for style in book.paragraphstyles.values() {
-        if style.origin() == origin && style.styleuse() == styleuse {
+        if is_origin(style.origin(), origin) && style.styleuse() == styleuse {
             write_paragraphstyle(style, xml_out)?;
         }
     }
     for style in book.textstyles.values() {
-        if style.origin() == origin && style.styleuse() == styleuse {
+        if is_origin(style.origin(), origin) && style.styleuse() == styleuse {
             write_textstyle(style, xml_out)?;
         }
     }
     for style in book.rubystyles.values() {
-        if style.origin() == origin && style.styleuse() == styleuse {
+        if is_origin(style.origin(), origin) && style.styleuse() == styleuse {
             write_rubystyle(style, xml_out)?;
         }
     }
     for style in book.graphicstyles.values() {
-        if style.origin() == origin && style.styleuse() == styleuse {
+        if is_origin(style.origin(), origin) && style.styleuse() == styleuse {
             write_graphicstyle(style, xml_out)?;
         }
     }
@@ -2917,7 +2920,7 @@ fn write_graphicstyle(
 
 fn write_valuestyles(
     book: &WorkBook,
-    origin: StyleOrigin,
+    origin: Option<StyleOrigin>,
     style_use: StyleUse,
     xml_out: &mut OdsXmlWriter<'_>,
 ) -> Result<(), OdsError> {
@@ -2933,13 +2936,13 @@ fn write_valuestyles(
 
 fn write_valuestyle<T: ValueFormatTrait>(
     value_formats: &HashMap<String, T>,
-    origin: StyleOrigin,
+    origin: Option<StyleOrigin>,
     styleuse: StyleUse,
     xml_out: &mut OdsXmlWriter<'_>,
 ) -> Result<(), OdsError> {
     for value_format in value_formats
         .values()
-        .filter(|s| s.origin() == origin && s.styleuse() == styleuse)
+        .filter(|s| is_origin(s.origin(), origin) && s.styleuse() == styleuse)
     {
         let tag = match value_format.value_type() {
             ValueType::Empty => unreachable!(),
-- 
2.43.0


From 2622395183a75db5c606b07bfd3edc1863242a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:01 +0000
Subject: [PATCH 25/60] fix: cell! with a table name is only absolute where
 requested

---
 src/formula.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/formula.rs b/src/formula.rs
index 91816ca..a4062e9 100644
--- a/src/formula.rs
+++ b/src/formula.rs
@@ -148,13 +148,13 @@ macro_rules! cell {
         spreadsheet_ods::CellRef::new_all(None, Some($table.into()), true, $row, true, $col)
     };
     ($table:expr => abs $row:expr, $col:expr) => {
-        spreadsheet_ods::CellRef::new_all(None, Some($table.into()), true, $row, true, $col)
+        spreadsheet_ods::CellRef::new_all(None, Some($table.into()), true, $row, false, $col)
     };
     ($table:expr => $row:expr, abs $col:expr) => {
-        spreadsheet_ods::CellRef::new_all(None, Some($table.into()), true, $row, true, $col)
+        spreadsheet_ods::CellRef::new_all(None, Some($table.into()), false, $row, true, $col)
     };
     ($table:expr => $row:expr, $col:expr) => {
-        spreadsheet_ods::CellRef::new_all(None, Some($table.into()), true, $row, true, $col)
+        spreadsheet_ods::CellRef::new_all(None, Some($table.into()), false, $row, false, $col)
     };
 
     ($table:expr => abs $row:expr, abs $col:expr, abs $row2:expr, abs $col2:expr) => {
-- 
2.43.0


From 4689295c831479ac7ec04b2373a73734489c0ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:01 +0000
Subject: [PATCH 26/60] fix: quote every sheet name that needs it in
 references, column and row names of the full range

---
 src/refs.rs        |  3 ++-
 src/refs/parser.rs | 45 +++++++++++++++++++++++++++++----------------
 2 files changed, 31 insertions(+), 17 deletions(-)

diff --git a/src/refs.rs b/src/refs.rs
index 6989ec3..f825dfe 100644
--- a/src/refs.rs
+++ b/src/refs.rs
@@ -987,6 +987,7 @@ impl Display for RowRange {
 
 mod format_refs {
     use crate::refs::format::{fmt_abs, fmt_col_name, fmt_row_name};
+    use crate::refs::parser::is_unquoted_sheet_name;
     use crate::refs::{CCol, CRow};
     use crate::{CellRange, CellRef, ColRange, RowRange};
     use std::fmt;
@@ -1125,7 +1126,7 @@ mod format_refs {
         abs: bool,
     ) -> fmt::Result {
         fmt_abs(f, abs)?;
-        if table_name.contains(['\'', ' ', '.']) {
+        if !is_unquoted_sheet_name(table_name) {
             write!(f, "'")?;
             write!(f, "{}", &table_name.replace('\'', "''"))?;
             write!(f, "'")?;
diff --git a/src/refs/parser.rs b/src/refs/parser.rs
index 26b8edf..0940228 100644
--- a/src/refs/parser.rs
+++ b/src/refs/parser.rs
@@ -208,6 +208,8 @@ pub(crate) fn parse_row_range(input: KSpan<'_>) -> KTokenizerResult<'_, RowRange
     )
 }
 
+pub(crate) use tokens::is_unquoted_sheet_name;
+
 mod conv {
     use crate::refs::parser::KSpan;
     #[cfg(not(debug_assertions))]
@@ -289,9 +291,9 @@ mod conv {
     /// Parse a row number to a row index.
     #[allow(clippy::explicit_auto_deref)]
     pub(crate) fn try_u32_from_rowname(i: KSpan<'_>) -> Result<u32, ParseRownameError> {
-        match u32::from_str(i.fragment()) {
-            Ok(v) if v > 0 => Ok(v - 1),
-            Ok(_v) => Err(ParseRownameError::Zero),
+        match u64::from_str(i.fragment()) {
+            Ok(0) => Err(ParseRownameError::Zero),
+            Ok(v) => u32::try_from(v - 1).map_err(|_| ParseRownameError::PosOverflow),
             Err(e) => Err(match e.kind() {
                 IntErrorKind::Empty => ParseRownameError::Empty,
                 IntErrorKind::InvalidDigit => ParseRownameError::InvalidDigit,
@@ -331,14 +333,14 @@ mod conv {
 
     /// Parse a col label to a column index.
     pub(crate) fn try_u32_from_colname(i: KSpan<'_>) -> Result<u32, ParseColnameError> {
-        let mut col = 0u32;
+        let mut col = 0u64;
 
         for c in (*i).chars() {
             if !c.is_ascii_uppercase() {
                 return Err(ParseColnameError::InvalidChar);
             }
 
-            let mut v = c as u32 - b'A' as u32;
+            let mut v = c as u64 - b'A' as u64;
             if v == 25 {
                 v = 0;
                 col = (col + 1) * 26;
@@ -347,12 +349,16 @@ mod conv {
                 col *= 26;
             }
             col += v;
+
+            if col > u32::MAX as u64 + 1 {
+                return Err(ParseColnameError::InvalidColname);
+            }
         }
 
         if col == 0 {
             Err(ParseColnameError::InvalidColname)
         } else {
-            Ok(col - 1)
+            Ok((col - 1) as u32)
         }
     }
 }
@@ -480,16 +486,23 @@ mod tokens {
     // SheetName ::= QuotedSheetName | '$'? [^\]\. #$']+
     // QuotedSheetName ::= '$'? SingleQuoted
     pub(crate) fn unquoted_sheet_name(i: KSpan<'_>) -> KTokenizerResult<'_, String> {
-        take_while1(|v| {
-            if (v as i32) < 128 {
-                SHEET_NAME[v as usize]
-            } else {
-                true
-            }
-        })
-        .with_code(CRUnquotedName)
-        .map(|v: KSpan<'_>| v.fragment().to_string())
-        .parse(i)
+        take_while1(is_sheet_name_char)
+            .with_code(CRUnquotedName)
+            .map(|v: KSpan<'_>| v.fragment().to_string())
+            .parse(i)
+    }
+
+    fn is_sheet_name_char(c: char) -> bool {
+        if (c as i32) < 128 {
+            SHEET_NAME[c as usize]
+        } else {
+            true
+        }
+    }
+
+    /// Can the sheet name be written without quotes?
+    pub(crate) fn is_unquoted_sheet_name(name: &str) -> bool {
+        !name.is_empty() && name.chars().all(is_sheet_name_char)
     }
 
     /// Parse dollar
-- 
2.43.0


From e3e8c0d633d2ba1fad85d9a76ad14a920805a86a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:49 +0000
Subject: [PATCH 27/60] fix: styled empty cells are dropped on reading only if
 that style is the default for all their columns

The default-cell-style of the row takes precedence over that of the column, and a repeated cell can
cover columns with different defaults.
---
 src/io/read.rs | 33 ++++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/src/io/read.rs b/src/io/read.rs
index eb2f974..08e92c6 100644
--- a/src/io/read.rs
+++ b/src/io/read.rs
@@ -1380,13 +1380,6 @@ fn read_table_cell(
     let mut cell = None;
     let mut repeat = 1;
 
-    // find default-cell-style for this column.
-    let default_cellstyle = if let Some(ch) = sheet.valid_col_header(col) {
-        ch.cellstyle.as_ref()
-    } else {
-        None
-    };
-
     let mut tc = ReadTableCell {
         val_type: ValueType::Empty,
         val_datetime: None,
@@ -1564,6 +1557,7 @@ fn read_table_cell(
         set_value(tc, &mut cell)?;
 
         // store cell-data
+        let default_cellstyle = default_cellstyle(sheet, row, col, repeat);
         if ignore_cell(ctx, default_cellstyle, &cell) {
             false
         } else {
@@ -1578,6 +1572,31 @@ fn read_table_cell(
     Ok((repeat, have_data))
 }
 
+// The default-cell-style that applies to all the columns of a (repeated) cell.
+// A default-cell-style of the row takes precedence over the one of the column.
+fn default_cellstyle(sheet: &Sheet, row: u32, col: u32, repeat: u32) -> Option<&CellStyleRef> {
+    if let Some(cellstyle) = sheet
+        .row_header
+        .get(&row)
+        .and_then(|rh| rh.cellstyle.as_ref())
+    {
+        return Some(cellstyle);
+    }
+
+    let cellstyle = sheet.valid_col_header(col)?.cellstyle.as_ref()?;
+    let end = col.saturating_add(repeat);
+    let mut next = col;
+    while next < end {
+        let (base_col, ch) = sheet.col_header.range(..=next).next_back()?;
+        let ch_end = base_col + ch.span;
+        if ch_end <= next || ch.cellstyle.as_ref() != Some(cellstyle) {
+            return None;
+        }
+        next = ch_end;
+    }
+    Some(cellstyle)
+}
+
 #[allow(clippy::if_same_then_else)]
 #[inline]
 fn ignore_cell(
-- 
2.43.0


From 3ae1f8c4d3aa7debd4fbc864cd0b9382e084d50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:35 +0000
Subject: [PATCH 28/60] fix: flush the given writer, a buffering one must not
 lose its errors

---
 src/io/write.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/io/write.rs b/src/io/write.rs
index d61a993..6e27fa3 100644
--- a/src/io/write.rs
+++ b/src/io/write.rs
@@ -72,6 +72,7 @@ impl OdsWriteOptions {
         let w = ZipWriter::new(&mut write);
 
         write_ods_impl(self, w, book)?;
+        write.flush()?;
 
         Ok(())
     }
@@ -132,9 +133,9 @@ pub fn write_fods_buf(book: &mut WorkBook, mut buf: Vec<u8>) -> Result<Vec<u8>,
 
 /// Writes the FODS file to the given Write.
 pub fn write_fods_to<T: Write + Seek>(book: &mut WorkBook, mut write: T) -> Result<(), OdsError> {
-    let write: &mut dyn Write = &mut write;
+    write_fods_impl(&mut write, book)?;
 
-    write_fods_impl(write, book)?;
+    write.flush()?;
 
     Ok(())
 }
-- 
2.43.0


From 11c42c79151b6201ce632fc06093fe9b4f9fdac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:14 +0000
Subject: [PATCH 29/60] fix: image data is padded base64, line breaks inside it
 are allowed

---
 src/draw.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/draw.rs b/src/draw.rs
index 847d872..f7474d9 100644
--- a/src/draw.rs
+++ b/src/draw.rs
@@ -382,12 +382,15 @@ impl DrawImage {
 
     /// Image binary data.
     pub fn get_binary(&self) -> Result<Vec<u8>, OdsError> {
+        // files contain padded base64 that is broken into lines.
         let ng = base64::engine::GeneralPurpose::new(
             &base64::alphabet::STANDARD,
-            base64::engine::general_purpose::NO_PAD,
+            base64::engine::general_purpose::PAD
+                .with_decode_padding_mode(base64::engine::DecodePaddingMode::Indifferent),
         );
 
         if let Some(binary_data) = &self.binary_data {
+            let binary_data: String = binary_data.split_ascii_whitespace().collect();
             Ok(ng.decode(binary_data)?)
         } else {
             Ok(Default::default())
@@ -400,7 +403,7 @@ impl DrawImage {
     pub fn set_binary(&mut self, binary: &[u8]) {
         let ng = base64::engine::GeneralPurpose::new(
             &base64::alphabet::STANDARD,
-            base64::engine::general_purpose::NO_PAD,
+            base64::engine::general_purpose::PAD,
         );
 
         self.binary_data = Some(ng.encode(binary));
-- 
2.43.0


From c106f188acfd214bb1f1e8e058bad1997c6de6b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:14 +0000
Subject: [PATCH 30/60] fix: an empty paragraph is kept in both of its xml
 forms

---
 src/io/read.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/io/read.rs b/src/io/read.rs
index 08e92c6..260e4c7 100644
--- a/src/io/read.rs
+++ b/src/io/read.rs
@@ -1510,7 +1510,11 @@ fn read_table_cell(
                     tc.content = append_text(TextContent::Text(String::new()), tc.content);
                 }
                 Event::Start(xml_tag) if xml_tag.name().as_ref() == b"text:p" => {
-                    let new_txt = read_text_or_tag(ctx, xml, xml_tag, false)?;
+                    let new_txt = match read_text_or_tag(ctx, xml, xml_tag, false)? {
+                        // same as <text:p/>
+                        TextContent::Empty => TextContent::Text(String::new()),
+                        v => v,
+                    };
                     tc.content = append_text(new_txt, tc.content);
                 }
                 Event::Start(xml_tag) | Event::Empty(xml_tag)
-- 
2.43.0


From c59f5ca9ffaaa55ea033275ba706babc1fc3fb31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:14 +0000
Subject: [PATCH 31/60] fix: read draw:frame and office:annotation without
 content

---
 src/io/read.rs | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/io/read.rs b/src/io/read.rs
index 260e4c7..a7f85c3 100644
--- a/src/io/read.rs
+++ b/src/io/read.rs
@@ -1526,14 +1526,20 @@ fn read_table_cell(
                     tc.content = append_text(new_txt, tc.content);
                 }
 
-                Event::Start(xml_tag) if xml_tag.name().as_ref() == b"office:annotation" => {
-                    let annotation = read_annotation(ctx, xml, xml_tag)?;
+                Event::Start(xml_tag) | Event::Empty(xml_tag)
+                    if xml_tag.name().as_ref() == b"office:annotation" =>
+                {
+                    let empty_tag = matches!(evt, Event::Empty(_));
+                    let annotation = read_annotation(ctx, xml, xml_tag, empty_tag)?;
                     cell.get_or_insert_with(CellData::default)
                         .extra_mut()
                         .annotation = Some(annotation);
                 }
-                Event::Start(xml_tag) if xml_tag.name().as_ref() == b"draw:frame" => {
-                    let draw_frame = read_draw_frame(ctx, xml, xml_tag)?;
+                Event::Start(xml_tag) | Event::Empty(xml_tag)
+                    if xml_tag.name().as_ref() == b"draw:frame" =>
+                {
+                    let empty_tag = matches!(evt, Event::Empty(_));
+                    let draw_frame = read_draw_frame(ctx, xml, xml_tag, empty_tag)?;
                     cell.get_or_insert_with(CellData::default)
                         .extra_mut()
                         .draw_frames
@@ -1764,6 +1770,7 @@ fn read_annotation(
     ctx: &mut OdsContext,
     xml: &mut OdsXmlReader<'_>,
     super_tag: &BytesStart<'_>,
+    empty_tag: bool,
 ) -> Result<Box<Annotation>, OdsError> {
     let mut annotation = Box::new(Annotation::new_empty());
 
@@ -1783,6 +1790,10 @@ fn read_annotation(
         }
     }
 
+    if empty_tag {
+        return Ok(annotation);
+    }
+
     let mut buf = ctx.pop_buf();
     loop {
         let evt = xml.read_event_into(&mut buf)?;
@@ -1831,11 +1842,16 @@ fn read_draw_frame(
     ctx: &mut OdsContext,
     xml: &mut OdsXmlReader<'_>,
     super_tag: &BytesStart<'_>,
+    empty_tag: bool,
 ) -> Result<DrawFrame, OdsError> {
     let mut draw_frame = DrawFrame::new();
 
     copy_attr2(ctx, draw_frame.attrmap_mut(), super_tag)?;
 
+    if empty_tag {
+        return Ok(draw_frame);
+    }
+
     let mut buf = ctx.pop_buf();
     loop {
         let evt = xml.read_event_into(&mut buf)?;
-- 
2.43.0


From 2c0701567a289284406926a5efa3655452915b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:11 +0000
Subject: [PATCH 32/60] fix: the default time formats of all locales are
 registered under their own names

---
 src/locale/cs_cz.rs   | 5 +++--
 src/locale/de_at.rs   | 5 +++--
 src/locale/default.rs | 5 +++--
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/locale/cs_cz.rs b/src/locale/cs_cz.rs
index 2d8b547..162328a 100644
--- a/src/locale/cs_cz.rs
+++ b/src/locale/cs_cz.rs
@@ -85,7 +85,7 @@ impl LocalizedValueFormat for LocaleCsCz {
     }
 
     fn time_of_day_format(&self) -> ValueFormatDateTime {
-        let mut v = ValueFormatDateTime::new_localized(DefaultFormat::datetime(), Self::LOCALE);
+        let mut v = ValueFormatDateTime::new_localized(DefaultFormat::time_of_day(), Self::LOCALE);
         v.part_hours().style(FormatNumberStyle::Long).build();
         v.part_text(":").build();
         v.part_minutes().style(FormatNumberStyle::Long).build();
@@ -95,7 +95,8 @@ impl LocalizedValueFormat for LocaleCsCz {
     }
 
     fn time_interval_format(&self) -> ValueFormatTimeDuration {
-        let mut v = ValueFormatTimeDuration::new_localized(DefaultFormat::datetime(), Self::LOCALE);
+        let mut v =
+            ValueFormatTimeDuration::new_localized(DefaultFormat::time_interval(), Self::LOCALE);
         v.set_truncate_on_overflow(false);
 
         v.part_hours().style(FormatNumberStyle::Long).build();
diff --git a/src/locale/de_at.rs b/src/locale/de_at.rs
index bb136b7..eef43ef 100644
--- a/src/locale/de_at.rs
+++ b/src/locale/de_at.rs
@@ -85,7 +85,7 @@ impl LocalizedValueFormat for LocaleDeAt {
     }
 
     fn time_of_day_format(&self) -> ValueFormatDateTime {
-        let mut v = ValueFormatDateTime::new_localized(DefaultFormat::datetime(), Self::LOCALE);
+        let mut v = ValueFormatDateTime::new_localized(DefaultFormat::time_of_day(), Self::LOCALE);
         v.part_hours().style(FormatNumberStyle::Long).build();
         v.part_text(":").build();
         v.part_minutes().style(FormatNumberStyle::Long).build();
@@ -95,7 +95,8 @@ impl LocalizedValueFormat for LocaleDeAt {
     }
 
     fn time_interval_format(&self) -> ValueFormatTimeDuration {
-        let mut v = ValueFormatTimeDuration::new_localized(DefaultFormat::datetime(), Self::LOCALE);
+        let mut v =
+            ValueFormatTimeDuration::new_localized(DefaultFormat::time_interval(), Self::LOCALE);
         v.set_truncate_on_overflow(false);
 
         v.part_hours().style(FormatNumberStyle::Long).build();
diff --git a/src/locale/default.rs b/src/locale/default.rs
index 39012d3..882ca7d 100644
--- a/src/locale/default.rs
+++ b/src/locale/default.rs
@@ -85,7 +85,7 @@ impl LocalizedValueFormat for LocaleDefault {
     }
 
     fn time_of_day_format(&self) -> ValueFormatDateTime {
-        let mut v = ValueFormatDateTime::new_localized(DefaultFormat::datetime(), Self::LOCALE);
+        let mut v = ValueFormatDateTime::new_localized(DefaultFormat::time_of_day(), Self::LOCALE);
         v.part_hours().style(FormatNumberStyle::Long).build();
         v.part_text(":").build();
         v.part_minutes().style(FormatNumberStyle::Long).build();
@@ -95,7 +95,8 @@ impl LocalizedValueFormat for LocaleDefault {
     }
 
     fn time_interval_format(&self) -> ValueFormatTimeDuration {
-        let mut v = ValueFormatTimeDuration::new_localized(DefaultFormat::datetime(), Self::LOCALE);
+        let mut v =
+            ValueFormatTimeDuration::new_localized(DefaultFormat::time_interval(), Self::LOCALE);
         v.set_truncate_on_overflow(false);
 
         v.part_hours().style(FormatNumberStyle::Long).build();
-- 
2.43.0


From bcfcd418324467ca99c1c0884555aefc5238edc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:41 +0000
Subject: [PATCH 33/60] fix: xlink:actuate is written with the values that are
 read

---
 src/xlink.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/xlink.rs b/src/xlink.rs
index 8bb20fb..ea2fb84 100644
--- a/src/xlink.rs
+++ b/src/xlink.rs
@@ -15,8 +15,8 @@ pub enum XLinkActuate {
 impl Display for XLinkActuate {
     fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
         match self {
-            XLinkActuate::OnLoad => write!(f, "OnLoad"),
-            XLinkActuate::OnRequest => write!(f, "OnRequest"),
+            XLinkActuate::OnLoad => write!(f, "onLoad"),
+            XLinkActuate::OnRequest => write!(f, "onRequest"),
         }
     }
 }
-- 
2.43.0


From b162ce063d3ca6ffb666a0acf91b7254fd3e7a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:41 +0000
Subject: [PATCH 34/60] fix: meta.xml declares all namespaces it uses

---
 src/io/write.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/io/write.rs b/src/io/write.rs
index 6e27fa3..753b1d2 100644
--- a/src/io/write.rs
+++ b/src/io/write.rs
@@ -727,6 +727,8 @@ fn write_ods_metadata(book: &mut WorkBook, xml_out: &mut OdsXmlWriter<'_>) -> Re
         .entry("meta.xml".into())
         .or_insert_with(NamespaceMap::new);
 
+    xmlns.insert_str("xmlns:dc", "http://purl.org/dc/elements/1.1/");
+    xmlns.insert_str("xmlns:xlink", "http://www.w3.org/1999/xlink");
     xmlns.insert_str(
         "xmlns:meta",
         "urn:oasis:names:tc:opendocument:xmlns:meta:1.0",
-- 
2.43.0


From d6cefefd0dba4b55767a8e167e583d59cc344605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:41 +0000
Subject: [PATCH 35/60] fix: PageViewZoomValue of a sheet is read

---
 src/io/read.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/io/read.rs b/src/io/read.rs
index a7f85c3..196525c 100644
--- a/src/io/read.rs
+++ b/src/io/read.rs
@@ -754,6 +754,9 @@ fn calc_derived(book: &mut WorkBook) -> Result<(), OdsError> {
             if let Some(ConfigValue::Int(n)) = cc.get_value_rec(&["ZoomValue"]) {
                 sheet.config_mut().zoom_value = *n;
             }
+            if let Some(ConfigValue::Int(n)) = cc.get_value_rec(&["PageViewZoomValue"]) {
+                sheet.config_mut().page_view_zoom_value = *n;
+            }
             if let Some(ConfigValue::Boolean(n)) = cc.get_value_rec(&["ShowGrid"]) {
                 sheet.config_mut().show_grid = *n;
             }
-- 
2.43.0


From 1c7d554d526180c924bb99915dc41e3c22b133df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:41 +0000
Subject: [PATCH 36/60] fix: a differing code name of a sheet is kept

---
 src/io/write.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/io/write.rs b/src/io/write.rs
index 753b1d2..f430621 100644
--- a/src/io/write.rs
+++ b/src/io/write.rs
@@ -592,10 +592,10 @@ fn calc_config(book: &mut WorkBook) -> Result<(), OdsError> {
             ("ScriptConfiguration", ConfigItemType::Map),
             (sheet.name().as_str(), ConfigItemType::Entry),
         ]);
-        // maybe this is not accurate. there seem to be cases where the codename
-        // is not the same as the table name, but I can't find any uses of the
-        // codename anywhere.
-        bc.insert("CodeName", sheet.name().as_str().to_string());
+        // the codename can differ from the table name, keep it if it's there.
+        if bc.get("CodeName").is_none() {
+            bc.insert("CodeName", sheet.name().as_str().to_string());
+        }
 
         book.attach_sheet(sheet);
     }
-- 
2.43.0


From a2a7a1866f66d450effe5b4be89ed2161fdaeece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:41 +0000
Subject: [PATCH 37/60] fix: base64 settings are escaped like other text

---
 src/io/write.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/write.rs b/src/io/write.rs
index f430621..8c68ef5 100644
--- a/src/io/write.rs
+++ b/src/io/write.rs
@@ -1087,7 +1087,7 @@ fn write_config_item(
     match value {
         ConfigValue::Base64Binary(v) => {
             xml_out.attr_str("config:type", "base64Binary")?;
-            xml_out.text(v)?;
+            xml_out.text_esc(v)?;
         }
         ConfigValue::Boolean(v) => {
             xml_out.attr_str("config:type", "boolean")?;
-- 
2.43.0


From a8b3d164a942e4322f8d36b20ee9e8f6b135de21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:41 +0000
Subject: [PATCH 38/60] fix: empty settings are read

---
 src/io/read.rs | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/src/io/read.rs b/src/io/read.rs
index 196525c..a0ad989 100644
--- a/src/io/read.rs
+++ b/src/io/read.rs
@@ -4415,6 +4415,9 @@ fn read_ods_settings(ctx: &mut OdsContext, xml: &mut OdsXmlReader<'_>) -> Result
 fn read_office_settings(ctx: &mut OdsContext, xml: &mut OdsXmlReader<'_>) -> Result<(), OdsError> {
     let mut config = Config::new();
 
+    // all parts of the settings can occur as empty tags.
+    xml.config_mut().expand_empty_elements = true;
+
     let mut buf = ctx.pop_buf();
     loop {
         let evt = xml.read_event_into(&mut buf)?;
@@ -4440,6 +4443,8 @@ fn read_office_settings(ctx: &mut OdsContext, xml: &mut OdsXmlReader<'_>) -> Res
     }
     ctx.push_buf(buf);
 
+    xml.config_mut().expand_empty_elements = false;
+
     ctx.book.config = Detach::new(config);
 
     Ok(())
@@ -4478,10 +4483,11 @@ fn read_config_item_set(
             println!(" read_office_item_set {:?}", evt);
         }
         match &evt {
-            Event::Empty(xml_tag) if xml_tag.name().as_ref() == b"config:config-item" => {}
             Event::Start(xml_tag) if xml_tag.name().as_ref() == b"config:config-item" => {
                 let (name, val) = read_config_item(ctx, xml, xml_tag)?;
-                config_set.insert(name, val);
+                if let Some(val) = val {
+                    config_set.insert(name, val);
+                }
             }
             Event::Start(xml_tag) if xml_tag.name().as_ref() == b"config:config-item-set" => {
                 let (name, val) = read_config_item_set(ctx, xml, xml_tag)?;
@@ -4674,10 +4680,11 @@ fn read_config_item_map_entry(
             println!(" read_config_item_map_entry {:?}", evt);
         }
         match &evt {
-            Event::Empty(xml_tag) if xml_tag.name().as_ref() == b"config:config-item" => {}
             Event::Start(xml_tag) if xml_tag.name().as_ref() == b"config:config-item" => {
                 let (name, val) = read_config_item(ctx, xml, xml_tag)?;
-                config_set.insert(name, ConfigItem::from(val));
+                if let Some(val) = val {
+                    config_set.insert(name, ConfigItem::from(val));
+                }
             }
 
             Event::Start(xml_tag) if xml_tag.name().as_ref() == b"config:config-item-set" => {
@@ -4718,7 +4725,7 @@ fn read_config_item(
     ctx: &mut OdsContext,
     xml: &mut OdsXmlReader<'_>,
     super_tag: &BytesStart<'_>,
-) -> Result<(String, ConfigValue), OdsError> {
+) -> Result<(String, Option<ConfigValue>), OdsError> {
     #[derive(PartialEq)]
     enum ConfigValueType {
         None,
@@ -4798,6 +4805,12 @@ fn read_config_item(
                         config_val =
                             Some(ConfigValue::Base64Binary(from_utf8(&value)?.to_string()));
                     }
+                    ConfigValueType::String => {
+                        config_val =
+                            Some(ConfigValue::String(from_utf8(value.as_ref())?.to_string()));
+                    }
+                    // no value, ignore the item.
+                    _ if value.is_empty() => {}
                     ConfigValueType::Boolean => {
                         config_val = Some(ConfigValue::Boolean(parse_bool(&value)?));
                     }
@@ -4816,10 +4829,6 @@ fn read_config_item(
                     ConfigValueType::Short => {
                         config_val = Some(ConfigValue::Short(parse_i16(&value)?));
                     }
-                    ConfigValueType::String => {
-                        config_val =
-                            Some(ConfigValue::String(from_utf8(value.as_ref())?.to_string()));
-                    }
                 }
                 break;
             }
@@ -4839,12 +4848,6 @@ fn read_config_item(
     ctx.push_buf(buf);
     ctx.push_buf(value);
 
-    let config_val = if let Some(config_val) = config_val {
-        config_val
-    } else {
-        return Err(OdsError::Ods("config-item without value???".to_string()));
-    };
-
     Ok((name, config_val))
 }
 
-- 
2.43.0


From 76384d880d9d4d62c6ef947783eac2488e31a467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:41 +0000
Subject: [PATCH 39/60] fix: the target frame of meta:hyperlink-behaviour is
 read

---
 src/io/read.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/read.rs b/src/io/read.rs
index a0ad989..3e3b263 100644
--- a/src/io/read.rs
+++ b/src/io/read.rs
@@ -4200,7 +4200,7 @@ fn read_metadata_hyperlink_behaviour(
 
     for attr in tag.attributes().with_checks(false) {
         match attr? {
-            attr if attr.key.as_ref() == b"office:targetframe-name" => {
+            attr if attr.key.as_ref() == b"office:target-frame-name" => {
                 hyperlink_behaviour.target_frame_name =
                     Some(attr.decode_and_unescape_value(ctx.decoder)?.to_string());
             }
-- 
2.43.0


From fef8690f502a7290e1c4926b0292efe925fbeb73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:41 +0000
Subject: [PATCH 40/60] fix: template, auto-reload, statistics and user-defined
 metadata survive

---
 src/io/read.rs  | 75 ++++++++++++++++++++++++++-----------------------
 src/io/write.rs |  8 +++---
 2 files changed, 44 insertions(+), 39 deletions(-)

diff --git a/src/io/read.rs b/src/io/read.rs
index 3e3b263..ad3e775 100644
--- a/src/io/read.rs
+++ b/src/io/read.rs
@@ -4070,30 +4070,42 @@ fn read_office_meta(ctx: &mut OdsContext, xml: &mut OdsXmlReader<'_>) -> Result<
                     read_metadata_value(ctx, xml, xml_tag, parse_duration, Duration::default)?;
             }
 
-            Event::Start(xml_tag) if xml_tag.name().as_ref() == b"meta:template" => {
+            Event::Start(xml_tag) | Event::Empty(xml_tag)
+                if xml_tag.name().as_ref() == b"meta:template" =>
+            {
                 ctx.book.metadata.template = read_metadata_template(ctx, xml_tag)?;
             }
             Event::End(xml_tag) if xml_tag.name().as_ref() == b"meta:template" => {}
 
-            Event::Start(xml_tag) if xml_tag.name().as_ref() == b"meta:auto-reload" => {
+            Event::Start(xml_tag) | Event::Empty(xml_tag)
+                if xml_tag.name().as_ref() == b"meta:auto-reload" =>
+            {
                 ctx.book.metadata.auto_reload = read_metadata_auto_reload(ctx, xml_tag)?;
             }
             Event::End(xml_tag) if xml_tag.name().as_ref() == b"meta:auto-reload" => {}
 
-            Event::Start(xml_tag) if xml_tag.name().as_ref() == b"meta:hyperlink-behaviour" => {
+            Event::Start(xml_tag) | Event::Empty(xml_tag)
+                if xml_tag.name().as_ref() == b"meta:hyperlink-behaviour" =>
+            {
                 ctx.book.metadata.hyperlink_behaviour =
                     read_metadata_hyperlink_behaviour(ctx, xml_tag)?;
             }
             Event::End(xml_tag) if xml_tag.name().as_ref() == b"meta:hyperlink-behaviour" => {}
 
-            Event::Start(xml_tag) if xml_tag.name().as_ref() == b"meta:document-statistic" => {
+            Event::Start(xml_tag) | Event::Empty(xml_tag)
+                if xml_tag.name().as_ref() == b"meta:document-statistic" =>
+            {
                 ctx.book.metadata.document_statistics =
                     read_metadata_document_statistics(ctx, xml_tag)?;
             }
             Event::End(xml_tag) if xml_tag.name().as_ref() == b"meta:document-statistic" => {}
 
             Event::Start(xml_tag) if xml_tag.name().as_ref() == b"meta:user-defined" => {
-                let userdefined = read_metadata_user_defined(ctx, xml, xml_tag)?;
+                let userdefined = read_metadata_user_defined(ctx, xml, xml_tag, false)?;
+                ctx.book.metadata.user_defined.push(userdefined);
+            }
+            Event::Empty(xml_tag) if xml_tag.name().as_ref() == b"meta:user-defined" => {
+                let userdefined = read_metadata_user_defined(ctx, xml, xml_tag, true)?;
                 ctx.book.metadata.user_defined.push(userdefined);
             }
 
@@ -4263,6 +4275,7 @@ fn read_metadata_user_defined(
     ctx: &mut OdsContext,
     xml: &mut OdsXmlReader<'_>,
     tag: &BytesStart<'_>,
+    empty_tag: bool,
 ) -> Result<MetaUserDefined, OdsError> {
     let mut user_defined = MetaUserDefined::default();
     let mut value_type = None;
@@ -4288,37 +4301,26 @@ fn read_metadata_user_defined(
         }
     }
 
-    let mut buf = ctx.pop_buf();
-    loop {
-        let evt = xml.read_event_into(&mut buf)?;
-        if cfg!(feature = "dump_xml") {
-            println!("read_meta_user_defined {:?}", evt);
-        }
-
-        match &evt {
-            Event::End(xml_tag) if xml_tag.name() == tag.name() => {
-                break;
-            }
-            Event::Text(xml_text) => {
-                user_defined.value = match value_type {
-                    Some("boolean") => MetaValue::Boolean(parse_bool(xml_text)?),
-                    Some("date") => MetaValue::Datetime(parse_datetime(xml_text)?),
-                    Some("float") => MetaValue::Float(parse_f64(xml_text)?),
-                    Some("time") => MetaValue::TimeDuration(parse_duration(xml_text)?),
-                    _ => MetaValue::String(xml_text.decode()?.to_string()),
-                };
-            }
-            Event::Eof => {
-                break;
-            }
-            _ => {
-                unused_event("read_meta_user_defined", &evt)?;
-            }
-        }
-
-        buf.clear();
+    let text = if empty_tag {
+        String::new()
+    } else {
+        read_metadata_value(
+            ctx,
+            xml,
+            tag,
+            |v| Ok(from_utf8(v)?.to_string()),
+            String::new,
+        )?
+    };
+    if !text.is_empty() {
+        user_defined.value = match value_type {
+            Some("boolean") => MetaValue::Boolean(parse_bool(text.as_bytes())?),
+            Some("date") => MetaValue::Datetime(parse_datetime(text.as_bytes())?),
+            Some("float") => MetaValue::Float(parse_f64(text.as_bytes())?),
+            Some("time") => MetaValue::TimeDuration(parse_duration(text.as_bytes())?),
+            _ => MetaValue::String(text),
+        };
     }
-    ctx.push_buf(buf);
 
     Ok(user_defined)
 }
@@ -4349,6 +4351,9 @@ fn read_metadata_value<T>(
             Event::Text(xml_text) => {
                 text.push_str(xml_text.decode()?.as_ref());
             }
+            Event::CData(xml_text) => {
+                text.push_str(xml_text.decode()?.as_ref());
+            }
             Event::Eof => {
                 break;
             }
diff --git a/src/io/write.rs b/src/io/write.rs
index 8c68ef5..06560c1 100644
--- a/src/io/write.rs
+++ b/src/io/write.rs
@@ -756,7 +756,7 @@ fn write_ods_metadata(book: &mut WorkBook, xml_out: &mut OdsXmlWriter<'_>) -> Re
 fn write_office_meta(book: &WorkBook, xml_out: &mut OdsXmlWriter<'_>) -> Result<(), OdsError> {
     xml_out.elem("office:meta")?;
 
-    xml_out.elem_text("meta:generator", &book.metadata.generator)?;
+    xml_out.elem_text_esc("meta:generator", &book.metadata.generator)?;
     if !book.metadata.title.is_empty() {
         xml_out.elem_text_esc("dc:title", &book.metadata.title)?;
     }
@@ -793,7 +793,7 @@ fn write_office_meta(book: &WorkBook, xml_out: &mut OdsXmlWriter<'_>) -> Result<
     if book.metadata.editing_cycles > 0 {
         xml_out.elem_text("meta:editing-cycles", &book.metadata.editing_cycles)?;
     }
-    if book.metadata.editing_duration.num_seconds() > 0 {
+    if !book.metadata.editing_duration.is_zero() {
         xml_out.elem_text(
             "meta:editing-duration",
             &format_duration2(book.metadata.editing_duration),
@@ -820,7 +820,7 @@ fn write_office_meta(book: &WorkBook, xml_out: &mut OdsXmlWriter<'_>) -> Result<
     }
 
     if !book.metadata.auto_reload.is_empty() {
-        xml_out.empty("meta:auto_reload")?;
+        xml_out.empty("meta:auto-reload")?;
         if let Some(v) = book.metadata.auto_reload.delay {
             xml_out.attr("meta:delay", &format_duration2(v))?;
         }
@@ -868,7 +868,7 @@ fn write_office_meta(book: &WorkBook, xml_out: &mut OdsXmlWriter<'_>) -> Result<
 
     for userdef in &book.metadata.user_defined {
         xml_out.elem("meta:user-defined")?;
-        xml_out.attr("meta:name", &userdef.name)?;
+        xml_out.attr_esc("meta:name", &userdef.name)?;
         if !matches!(userdef.value, MetaValue::String(_)) {
             xml_out.attr_str(
                 "meta:value-type",
-- 
2.43.0


From 66102ee2ead4c0321a5d110a57b5071dbcad4d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:33 +0000
Subject: [PATCH 41/60] fix: a validation without table:error-message has no
 error message

---
 src/io/read.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/io/read.rs b/src/io/read.rs
index ad3e775..c106406 100644
--- a/src/io/read.rs
+++ b/src/io/read.rs
@@ -2344,6 +2344,9 @@ fn read_validation(
     valid: &mut Validation,
     super_tag: &BytesStart<'_>,
 ) -> Result<(), OdsError> {
+    // there is no message if there is no table:error-message.
+    valid.set_err(None);
+
     for attr in super_tag.attributes().with_checks(false) {
         match attr? {
             attr if attr.key.as_ref() == b"table:name" => {
-- 
2.43.0


From 377f484563d19b52225947dafec357349f8df554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:01 +0000
Subject: [PATCH 42/60] fix: named styles of any origin and tab stops without
 other paragraph properties are written

---
 src/io/write.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/io/write.rs b/src/io/write.rs
index 06560c1..26a7a23 100644
--- a/src/io/write.rs
+++ b/src/io/write.rs
@@ -1224,7 +1224,8 @@ fn write_ods_styles(book: &mut WorkBook, xml_out: &mut OdsXmlWriter<'_>) -> Resu
     xml_out.attr_esc("office:version", book.version())?;
 
     write_office_font_face_decls(book, Some(StyleOrigin::Styles), xml_out)?;
-    write_office_styles(book, Some(StyleOrigin::Styles), xml_out)?;
+    // named and default styles exist only here.
+    write_office_styles(book, None, xml_out)?;
     write_office_automatic_styles(book, Some(StyleOrigin::Styles), xml_out)?;
     write_office_master_styles(book, xml_out)?;
 
@@ -2740,7 +2741,9 @@ fn write_paragraphstyle(
     style: &ParagraphStyle,
     xml_out: &mut OdsXmlWriter<'_>,
 ) -> Result<(), OdsError> {
-    let is_empty = style.paragraphstyle().is_empty() && style.textstyle().is_empty();
+    let is_empty = style.paragraphstyle().is_empty()
+        && style.tabstops().is_none()
+        && style.textstyle().is_empty();
 
     if style.styleuse() == StyleUse::Default {
         xml_out.elem_if(!is_empty, "style:default-style")?;
@@ -2759,7 +2762,7 @@ fn write_paragraphstyle(
         }
     }
 
-    if !style.paragraphstyle().is_empty() {
+    if !style.paragraphstyle().is_empty() || style.tabstops().is_some() {
         if style.tabstops().is_none() {
             xml_out.empty("style:paragraph-properties")?;
             for (a, v) in style.paragraphstyle().iter() {
-- 
2.43.0


From e5959c365649822fd27385837d7eaf9afa1445b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:49 +0000
Subject: [PATCH 43/60] fix: embedded text of number formats is read as it was
 written

---
 src/io/read.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/io/read.rs b/src/io/read.rs
index c106406..9a7bdbd 100644
--- a/src/io/read.rs
+++ b/src/io/read.rs
@@ -3090,6 +3090,8 @@ fn read_part_number(
     copy_attr2(ctx, part.attrmap_mut(), super_tag)?;
 
     if !empty_tag {
+        let mut embedded = false;
+
         let mut buf = ctx.pop_buf();
         loop {
             let evt = xml.read_event_into(&mut buf)?;
@@ -3100,6 +3102,7 @@ fn read_part_number(
                 Event::Start(xml_tag) | Event::Empty(xml_tag)
                     if xml_tag.name().as_ref() == b"number:embedded-text" =>
                 {
+                    embedded = !empty_tag;
                     for attr in xml_tag.attributes().with_checks(false) {
                         let attr = attr?;
                         match attr.key.as_ref() {
@@ -3116,10 +3119,16 @@ fn read_part_number(
                         }
                     }
                 }
-                Event::End(xml_tag) if xml_tag.name().as_ref() == b"number:embedded-text" => {}
-                Event::Text(xml_text) => {
-                    part.set_content(parse_string(xml_text.as_ref())?);
+                Event::End(xml_tag) if xml_tag.name().as_ref() == b"number:embedded-text" => {
+                    embedded = false;
+                }
+                Event::GeneralRef(xml_ref) if embedded => {
+                    part.append_content(entity(xml_ref)?);
+                }
+                Event::Text(xml_text) if embedded => {
+                    part.append_content(xml_text.decode()?);
                 }
+                Event::Text(_) => {}
                 Event::End(xml_tag) if xml_tag.name() == super_tag.name() => {
                     break;
                 }
-- 
2.43.0


From 2857707ab89cceba9776a1e9ba10b64a7d062e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:49 +0000
Subject: [PATCH 44/60] fix: a default style is not replaced by a style with a
 generated name

---
 src/io/read.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/io/read.rs b/src/io/read.rs
index 9a7bdbd..014b941 100644
--- a/src/io/read.rs
+++ b/src/io/read.rs
@@ -3734,6 +3734,11 @@ fn copy_style_attr(
 ) -> Result<String, OdsError> {
     let mut name = None;
 
+    // has no name, but must not be replaced by some other style.
+    if super_tag.name().as_ref() == b"style:default-style" {
+        name = Some("style:default-style".to_string());
+    }
+
     for attr in super_tag.attributes().with_checks(false) {
         match attr? {
             attr if attr.key.as_ref() == b"style:name" => {
-- 
2.43.0


From 4ecaec4a828ce5257269680f202daba512df7e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:49 +0000
Subject: [PATCH 45/60] fix: all paragraphs of headers and footers keep their
 attributes

---
 src/io/read.rs | 21 +++++----------------
 1 file changed, 5 insertions(+), 16 deletions(-)

diff --git a/src/io/read.rs b/src/io/read.rs
index 014b941..3d204fc 100644
--- a/src/io/read.rs
+++ b/src/io/read.rs
@@ -2496,9 +2496,10 @@ fn read_headerfooter(
     ctx: &mut OdsContext,
     xml: &mut OdsXmlReader<'_>,
     super_tag: &BytesStart<'_>,
+    empty_tag: bool,
 ) -> Result<HeaderFooter, OdsError> {
     let mut hf = HeaderFooter::new();
-    let mut content = TextContent::Empty;
+    let mut content = Vec::new();
 
     for attr in super_tag.attributes().with_checks(false) {
         match attr? {
@@ -2539,27 +2540,15 @@ fn read_headerfooter(
             }
 
             Event::Start(xml_tag) | Event::Empty(xml_tag)
-                if xml_tag.name().as_ref() == b"text:p" =>
+                if xml_tag.name().as_ref() == b"text:p" || xml_tag.name().as_ref() == b"text:h" =>
             {
-                let new_txt = read_text_or_tag(ctx, xml, xml_tag, empty_tag)?;
-                content = append_text(new_txt, content);
-            }
-            Event::Start(xml_tag) | Event::Empty(xml_tag)
-                if xml_tag.name().as_ref() == b"text:h" =>
-            {
-                let new_txt = read_text_or_tag(ctx, xml, xml_tag, empty_tag)?;
-                content = append_text(new_txt, content);
+                content.push(read_xml(ctx, xml, xml_tag, empty_tag)?);
             }
             // no other tags supported for now. they have never been seen in the wild.
             Event::Text(_) => (),
             Event::End(xml_tag) => {
                 if xml_tag.name() == super_tag.name() {
-                    hf.set_content(match content {
-                        TextContent::Empty => Vec::new(),
-                        TextContent::Text(v) => vec![TextP::new().text(v).into()],
-                        TextContent::Xml(v) => vec![v],
-                        TextContent::XmlVec(v) => v,
-                    });
+                    hf.set_content(content);
                     break;
                 }
             }
-- 
2.43.0


From 76ca9cb3ed31363b60ca4787513483726907e3cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:49 +0000
Subject: [PATCH 46/60] fix: page layouts, master pages, headers and formats
 without content are read

---
 src/io/read.rs | 155 ++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 120 insertions(+), 35 deletions(-)

diff --git a/src/io/read.rs b/src/io/read.rs
index 3d204fc..5c871c5 100644
--- a/src/io/read.rs
+++ b/src/io/read.rs
@@ -2099,6 +2099,7 @@ fn read_page_style(
     ctx: &mut OdsContext,
     xml: &mut OdsXmlReader<'_>,
     super_tag: &BytesStart<'_>,
+    empty_tag: bool,
 ) -> Result<(), OdsError> {
     let mut pl = PageStyle::new_empty();
     for attr in super_tag.attributes().with_checks(false) {
@@ -2117,6 +2118,11 @@ fn read_page_style(
         }
     }
 
+    if empty_tag {
+        ctx.book.add_pagestyle(pl);
+        return Ok(());
+    }
+
     let mut headerstyle = false;
     let mut footerstyle = false;
 
@@ -2134,18 +2140,16 @@ fn read_page_style(
             }
             Event::End(xml_tag) if xml_tag.name().as_ref() == b"style:page-layout-properties" => {}
 
-            Event::Start(xml_tag) | Event::Empty(xml_tag)
-                if xml_tag.name().as_ref() == b"style:header-style" =>
-            {
+            Event::Empty(xml_tag) if xml_tag.name().as_ref() == b"style:header-style" => {}
+            Event::Start(xml_tag) if xml_tag.name().as_ref() == b"style:header-style" => {
                 headerstyle = true;
             }
             Event::End(xml_tag) if xml_tag.name().as_ref() == b"style:header-style" => {
                 headerstyle = false;
             }
 
-            Event::Start(xml_tag) | Event::Empty(xml_tag)
-                if xml_tag.name().as_ref() == b"style:footer-style" =>
-            {
+            Event::Empty(xml_tag) if xml_tag.name().as_ref() == b"style:footer-style" => {}
+            Event::Start(xml_tag) if xml_tag.name().as_ref() == b"style:footer-style" => {
                 footerstyle = true;
             }
             Event::End(xml_tag) if xml_tag.name().as_ref() == b"style:footer-style" => {
@@ -2384,6 +2388,7 @@ fn read_office_master_styles(
     let mut buf = ctx.pop_buf();
     loop {
         let evt = xml.read_event_into(&mut buf)?;
+        let empty_tag = matches!(evt, Event::Empty(_));
         if cfg!(feature = "dump_xml") {
             println!(" read_master_styles {:?}", evt);
         }
@@ -2391,7 +2396,7 @@ fn read_office_master_styles(
             Event::Start(xml_tag) | Event::Empty(xml_tag)
                 if xml_tag.name().as_ref() == b"style:master-page" =>
             {
-                read_master_page(ctx, xml, origin, xml_tag)?;
+                read_master_page(ctx, xml, origin, xml_tag, empty_tag)?;
             }
             Event::End(xml_tag) if xml_tag.name().as_ref() == b"office:master-styles" => {
                 break;
@@ -2416,6 +2421,7 @@ fn read_master_page(
     xml: &mut OdsXmlReader<'_>,
     _origin: StyleOrigin,
     super_tag: &BytesStart<'_>,
+    empty_tag: bool,
 ) -> Result<(), OdsError> {
     let mut masterpage = MasterPage::new_empty();
 
@@ -2442,36 +2448,48 @@ fn read_master_page(
         }
     }
 
+    if empty_tag {
+        ctx.book.add_masterpage(masterpage);
+        return Ok(());
+    }
+
     let mut buf = ctx.pop_buf();
     loop {
         let evt = xml.read_event_into(&mut buf)?;
+        let empty_tag = matches!(evt, Event::Empty(_));
         if cfg!(feature = "dump_xml") {
             println!(" read_master_page {:?}", evt);
         }
         match &evt {
-            Event::Empty(xml_tag) if xml_tag.name().as_ref() == b"style:header" => {}
-            Event::Start(xml_tag) if xml_tag.name().as_ref() == b"style:header" => {
-                masterpage.set_header(read_headerfooter(ctx, xml, xml_tag)?);
+            Event::Start(xml_tag) | Event::Empty(xml_tag)
+                if xml_tag.name().as_ref() == b"style:header" =>
+            {
+                masterpage.set_header(read_headerfooter(ctx, xml, xml_tag, empty_tag)?);
             }
-            Event::Empty(xml_tag) if xml_tag.name().as_ref() == b"style:header-first" => {}
-            Event::Start(xml_tag) if xml_tag.name().as_ref() == b"style:header-first" => {
-                masterpage.set_header_first(read_headerfooter(ctx, xml, xml_tag)?);
+            Event::Start(xml_tag) | Event::Empty(xml_tag)
+                if xml_tag.name().as_ref() == b"style:header-first" =>
+            {
+                masterpage.set_header_first(read_headerfooter(ctx, xml, xml_tag, empty_tag)?);
             }
-            Event::Empty(xml_tag) if xml_tag.name().as_ref() == b"style:header-left" => {}
-            Event::Start(xml_tag) if xml_tag.name().as_ref() == b"style:header-left" => {
-                masterpage.set_header_left(read_headerfooter(ctx, xml, xml_tag)?);
+            Event::Start(xml_tag) | Event::Empty(xml_tag)
+                if xml_tag.name().as_ref() == b"style:header-left" =>
+            {
+                masterpage.set_header_left(read_headerfooter(ctx, xml, xml_tag, empty_tag)?);
             }
-            Event::Empty(xml_tag) if xml_tag.name().as_ref() == b"style:footer" => {}
-            Event::Start(xml_tag) if xml_tag.name().as_ref() == b"style:footer" => {
-                masterpage.set_footer(read_headerfooter(ctx, xml, xml_tag)?);
+            Event::Start(xml_tag) | Event::Empty(xml_tag)
+                if xml_tag.name().as_ref() == b"style:footer" =>
+            {
+                masterpage.set_footer(read_headerfooter(ctx, xml, xml_tag, empty_tag)?);
             }
-            Event::Empty(xml_tag) if xml_tag.name().as_ref() == b"style:footer-first" => {}
-            Event::Start(xml_tag) if xml_tag.name().as_ref() == b"style:footer-first" => {
-                masterpage.set_footer_first(read_headerfooter(ctx, xml, xml_tag)?);
+            Event::Start(xml_tag) | Event::Empty(xml_tag)
+                if xml_tag.name().as_ref() == b"style:footer-first" =>
+            {
+                masterpage.set_footer_first(read_headerfooter(ctx, xml, xml_tag, empty_tag)?);
             }
-            Event::Empty(xml_tag) if xml_tag.name().as_ref() == b"style:footer-left" => {}
-            Event::Start(xml_tag) if xml_tag.name().as_ref() == b"style:footer-left" => {
-                masterpage.set_footer_left(read_headerfooter(ctx, xml, xml_tag)?);
+            Event::Start(xml_tag) | Event::Empty(xml_tag)
+                if xml_tag.name().as_ref() == b"style:footer-left" =>
+            {
+                masterpage.set_footer_left(read_headerfooter(ctx, xml, xml_tag, empty_tag)?);
             }
             Event::End(xml_tag) if xml_tag.name().as_ref() == b"style:master-page" => {
                 break;
@@ -2512,6 +2530,10 @@ fn read_headerfooter(
         }
     }
 
+    if empty_tag {
+        return Ok(hf);
+    }
+
     let mut buf = ctx.pop_buf();
     loop {
         let evt = xml.read_event_into(&mut buf)?;
@@ -2598,7 +2620,7 @@ fn read_office_styles(
                     || xml_tag.name().as_ref() == b"number:percentage-style"
                     || xml_tag.name().as_ref() == b"number:text-style" =>
             {
-                read_value_format(ctx, xml, origin, StyleUse::Named, xml_tag)?;
+                read_value_format(ctx, xml, origin, StyleUse::Named, xml_tag, empty_tag)?;
             }
             Event::End(xml_tag) if xml_tag.name().as_ref() == b"office:styles" => {
                 break;
@@ -2645,13 +2667,13 @@ fn read_office_automatic_styles(
                     || xml_tag.name().as_ref() == b"number:percentage-style"
                     || xml_tag.name().as_ref() == b"number:text-style" =>
             {
-                read_value_format(ctx, xml, origin, StyleUse::Automatic, xml_tag)?;
+                read_value_format(ctx, xml, origin, StyleUse::Automatic, xml_tag, empty_tag)?;
             }
 
             Event::Start(xml_tag) | Event::Empty(xml_tag)
                 if xml_tag.name().as_ref() == b"style:page-layout" =>
             {
-                read_page_style(ctx, xml, xml_tag)?;
+                read_page_style(ctx, xml, xml_tag, empty_tag)?;
             }
 
             Event::End(xml_tag) if xml_tag.name().as_ref() == b"office:automatic-styles" => {
@@ -2678,41 +2700,98 @@ fn read_value_format(
     origin: StyleOrigin,
     styleuse: StyleUse,
     super_tag: &BytesStart<'_>,
+    empty_tag: bool,
 ) -> Result<(), OdsError> {
     match super_tag.name().as_ref() {
         b"number:boolean-style" => {
             let mut valuestyle = ValueFormatBoolean::new_empty();
-            read_value_format_parts(ctx, xml, origin, styleuse, &mut valuestyle, super_tag)?;
+            read_value_format_parts(
+                ctx,
+                xml,
+                origin,
+                styleuse,
+                &mut valuestyle,
+                super_tag,
+                empty_tag,
+            )?;
             ctx.book.add_boolean_format(valuestyle);
         }
         b"number:date-style" => {
             let mut valuestyle = ValueFormatDateTime::new_empty();
-            read_value_format_parts(ctx, xml, origin, styleuse, &mut valuestyle, super_tag)?;
+            read_value_format_parts(
+                ctx,
+                xml,
+                origin,
+                styleuse,
+                &mut valuestyle,
+                super_tag,
+                empty_tag,
+            )?;
             ctx.book.add_datetime_format(valuestyle);
         }
         b"number:time-style" => {
             let mut valuestyle = ValueFormatTimeDuration::new_empty();
-            read_value_format_parts(ctx, xml, origin, styleuse, &mut valuestyle, super_tag)?;
+            read_value_format_parts(
+                ctx,
+                xml,
+                origin,
+                styleuse,
+                &mut valuestyle,
+                super_tag,
+                empty_tag,
+            )?;
             ctx.book.add_timeduration_format(valuestyle);
         }
         b"number:number-style" => {
             let mut valuestyle = ValueFormatNumber::new_empty();
-            read_value_format_parts(ctx, xml, origin, styleuse, &mut valuestyle, super_tag)?;
+            read_value_format_parts(
+                ctx,
+                xml,
+                origin,
+                styleuse,
+                &mut valuestyle,
+                super_tag,
+                empty_tag,
+            )?;
             ctx.book.add_number_format(valuestyle);
         }
         b"number:currency-style" => {
             let mut valuestyle = ValueFormatCurrency::new_empty();
-            read_value_format_parts(ctx, xml, origin, styleuse, &mut valuestyle, super_tag)?;
+            read_value_format_parts(
+                ctx,
+                xml,
+                origin,
+                styleuse,
+                &mut valuestyle,
+                super_tag,
+                empty_tag,
+            )?;
             ctx.book.add_currency_format(valuestyle);
         }
         b"number:percentage-style" => {
             let mut valuestyle = ValueFormatPercentage::new_empty();
-            read_value_format_parts(ctx, xml, origin, styleuse, &mut valuestyle, super_tag)?;
+            read_value_format_parts(
+                ctx,
+                xml,
+                origin,
+                styleuse,
+                &mut valuestyle,
+                super_tag,
+                empty_tag,
+            )?;
             ctx.book.add_percentage_format(valuestyle);
         }
         b"number:text-style" => {
             let mut valuestyle = ValueFormatText::new_empty();
-            read_value_format_parts(ctx, xml, origin, styleuse, &mut valuestyle, super_tag)?;
+            read_value_format_parts(
+                ctx,
+                xml,
+                origin,
+                styleuse,
+                &mut valuestyle,
+                super_tag,
+                empty_tag,
+            )?;
             ctx.book.add_text_format(valuestyle);
         }
         _ => {
@@ -2736,6 +2815,7 @@ fn read_value_format_parts<T: ValueFormatTrait>(
     styleuse: StyleUse,
     valuestyle: &mut T,
     super_tag: &BytesStart<'_>,
+    empty_tag: bool,
 ) -> Result<(), OdsError> {
     //
     valuestyle.set_origin(origin);
@@ -2743,6 +2823,10 @@ fn read_value_format_parts<T: ValueFormatTrait>(
     let name = copy_style_attr(ctx, valuestyle.attrmap_mut(), super_tag)?;
     valuestyle.set_name(name.as_str());
 
+    if empty_tag {
+        return Ok(());
+    }
+
     let mut buf = ctx.pop_buf();
     loop {
         let evt = xml.read_event_into(&mut buf)?;
@@ -3087,6 +3171,7 @@ fn read_part_number(
             if cfg!(feature = "dump_xml") {
                 println!(" read_part_embedded_text {:?}", evt);
             }
+            let empty_tag = matches!(evt, Event::Empty(_));
             match &evt {
                 Event::Start(xml_tag) | Event::Empty(xml_tag)
                     if xml_tag.name().as_ref() == b"number:embedded-text" =>
-- 
2.43.0


From 7a84e5c66b5cb6e55d237254efd18271848f4c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:56 +0000
Subject: [PATCH 47/60] fix: the currency of a cell is unescaped like any other
 attribute

---
 src/io/parse.rs | 6 ------
 src/io/read.rs  | 6 +++---
 2 files changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/io/parse.rs b/src/io/parse.rs
index c7e0e4d..40b08d3 100644
--- a/src/io/parse.rs
+++ b/src/io/parse.rs
@@ -128,12 +128,6 @@ pub(crate) fn parse_string(input: KSpan<'_>) -> Result<String, OdsError> {
     Ok(String::from_utf8_lossy(input).to_string())
 }
 
-/// Parse a attribute value as a currency.
-#[inline]
-pub(crate) fn parse_currency(input: KSpan<'_>) -> Result<String, OdsError> {
-    Ok(String::from_utf8_lossy(input).to_string())
-}
-
 /// Parse a bool.
 #[inline]
 pub(crate) fn parse_bool(input: KSpan<'_>) -> Result<bool, OdsError> {
diff --git a/src/io/read.rs b/src/io/read.rs
index 5c871c5..2c54dda 100644
--- a/src/io/read.rs
+++ b/src/io/read.rs
@@ -23,8 +23,8 @@ use crate::ds::detach::Detach;
 use crate::error::OdsError;
 use crate::format::{FormatPart, FormatPartType, ValueFormatTrait, ValueStyleMap};
 use crate::io::parse::{
-    parse_bool, parse_currency, parse_datetime, parse_duration, parse_f64, parse_i16, parse_i32,
-    parse_i64, parse_string, parse_u32, parse_visibility, parse_xlink_actuate, parse_xlink_show,
+    parse_bool, parse_datetime, parse_duration, parse_f64, parse_i16, parse_i32, parse_i64,
+    parse_string, parse_u32, parse_visibility, parse_xlink_actuate, parse_xlink_show,
     parse_xlink_type,
 };
 use crate::io::NamespaceMap;
@@ -1484,7 +1484,7 @@ fn read_table_cell(
             }
             attr if attr.key.as_ref() == b"office:currency" => {
                 cell.get_or_insert_with(CellData::default);
-                tc.val_currency = Some(parse_currency(&attr.value)?);
+                tc.val_currency = Some(attr.decode_and_unescape_value(ctx.decoder)?.to_string());
             }
             attr if attr.key.as_ref() == b"table:formula" => {
                 cell.get_or_insert_with(CellData::default).formula =
-- 
2.43.0


From c4d1a866284fb939e844d323f72c8dedddc0c196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:13:02 +0000
Subject: [PATCH 48/60] fix: read CDATA sections in number formats and settings

---
 src/io/read.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/io/read.rs b/src/io/read.rs
index 2c54dda..51cca70 100644
--- a/src/io/read.rs
+++ b/src/io/read.rs
@@ -3135,6 +3135,9 @@ fn read_part_text(
                 Event::Text(xml_text) => {
                     part.append_content(xml_text.decode()?);
                 }
+                Event::CData(xml_text) => {
+                    part.append_content(xml_text.decode()?);
+                }
                 Event::End(xml_tag) if xml_tag.name() == super_tag.name() => {
                     break;
                 }
@@ -3202,6 +3205,9 @@ fn read_part_number(
                 Event::Text(xml_text) if embedded => {
                     part.append_content(xml_text.decode()?);
                 }
+                Event::CData(xml_text) if embedded => {
+                    part.append_content(xml_text.decode()?);
+                }
                 Event::Text(_) => {}
                 Event::End(xml_tag) if xml_tag.name() == super_tag.name() => {
                     break;
@@ -4893,6 +4899,9 @@ fn read_config_item(
             Event::Text(xml_text) => {
                 value.write_all(xml_text.decode()?.as_bytes())?;
             }
+            Event::CData(xml_text) => {
+                value.write_all(xml_text.decode()?.as_bytes())?;
+            }
             Event::End(xml_tag) if xml_tag.name().as_ref() == b"config:config-item" => {
                 let value = <Cow<'_, [u8]> as From<&Vec<u8>>>::from(value.as_ref());
                 match val_type {
-- 
2.43.0


From ee9a57d275a67c1154e302b191c015d879c45829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:44:11 +0000
Subject: [PATCH 49/60] fix: HyphenationLadderCount::NoLimit is written as
 "no-limit"

---
 src/style/units.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/style/units.rs b/src/style/units.rs
index c9c26b0..fba712b 100644
--- a/src/style/units.rs
+++ b/src/style/units.rs
@@ -675,7 +675,7 @@ pub enum HyphenationLadderCount {
 impl Display for HyphenationLadderCount {
     fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
         match self {
-            HyphenationLadderCount::NoLimit => write!(f, "no_limit"),
+            HyphenationLadderCount::NoLimit => write!(f, "no-limit"),
             HyphenationLadderCount::Count(c) => c.fmt(f),
         }
     }
-- 
2.43.0


From f5658b357f83fdffe3718a1749db6f3a936cfc0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:44:11 +0000
Subject: [PATCH 50/60] fix: set_xml_id writes the attribute xml:id

---
 src/macro_style.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/macro_style.rs b/src/macro_style.rs
index 3b1bb9d..9bca478 100644
--- a/src/macro_style.rs
+++ b/src/macro_style.rs
@@ -122,7 +122,7 @@ macro_rules! xml_id {
         /// The table:end-y attribute specifies the y-coordinate of the end position of a shape relative to
         /// the top-left edge of a cell. The size attributes of the shape are ignored.
         pub fn set_xml_id<S: Into<String>>(&mut self, id: S) {
-            self.$acc.set_attr("xml_id", id.into());
+            self.$acc.set_attr("xml:id", id.into());
         }
     };
 }
-- 
2.43.0


From 2e7ce14416ce4b768f0c0bd67cef87ba98d2b878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:44:11 +0000
Subject: [PATCH 51/60] fix: TextH::outline_level writes text:outline-level

---
 src/text.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/text.rs b/src/text.rs
index 7977c78..c3f5e1d 100644
--- a/src/text.rs
+++ b/src/text.rs
@@ -80,7 +80,7 @@ impl TextH {
 
     /// Level of the heading.
     pub fn outline_level(mut self, l: u8) -> Self {
-        self.xml.set_attr("text:outlinelevel", l.to_string());
+        self.xml.set_attr("text:outline-level", l.to_string());
         self
     }
 
-- 
2.43.0


From 3aff32b6bfe10b39d1f8281177a4585565c4baf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:44:11 +0000
Subject: [PATCH 52/60] fix: condstyle_name of headings and paragraphs writes
 text:cond-style-name

---
 src/text.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/text.rs b/src/text.rs
index c3f5e1d..be68b02 100644
--- a/src/text.rs
+++ b/src/text.rs
@@ -62,7 +62,7 @@ impl TextH {
     /// Sets a conditional style.
     pub fn condstyle_name(mut self, name: &ParagraphStyleRef) -> Self {
         self.xml
-            .set_attr("text:condstyle-name", name.as_str().to_string());
+            .set_attr("text:cond-style-name", name.as_str().to_string());
         self
     }
 
@@ -136,7 +136,7 @@ impl TextP {
     /// Sets a conditional style.
     pub fn condstyle_name(mut self, name: &ParagraphStyleRef) -> Self {
         self.xml
-            .set_attr("text:condstyle-name", name.as_str().to_string());
+            .set_attr("text:cond-style-name", name.as_str().to_string());
         self
     }
 
-- 
2.43.0


From 4755ba521e06f05bf87fa576697e478144977379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:44:11 +0000
Subject: [PATCH 53/60] fix: set_font_size_rel writes style:font-size-rel

---
 src/macro_attr_fo.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/macro_attr_fo.rs b/src/macro_attr_fo.rs
index e5df78c..2ff1a7a 100644
--- a/src/macro_attr_fo.rs
+++ b/src/macro_attr_fo.rs
@@ -582,7 +582,7 @@ macro_rules! fo_font_size_rel {
         /// This attribute specifies a relative font size change as a length. It cannot be used within automatic
         /// styles. This attribute changes the font size based on the font size of the parent style.
         pub fn set_font_size_rel(&mut self, size: FontSize) {
-            self.$acc.set_attr("fo:font-size-rel", size.to_string());
+            self.$acc.set_attr("style:font-size-rel", size.to_string());
         }
     };
 }
-- 
2.43.0


From 117e9ec6c2cf4861286d723f606cd7022d3af9cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:44:11 +0000
Subject: [PATCH 54/60] fix: transliteration_locale reads the transliteration
 attributes

---
 src/macro_attr_number.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/macro_attr_number.rs b/src/macro_attr_number.rs
index dd23ff6..3336724 100644
--- a/src/macro_attr_number.rs
+++ b/src/macro_attr_number.rs
@@ -110,13 +110,14 @@ macro_rules! number_transliteration_locale {
 
         /// Returns number:transliteration_language and number:transliteration_country as a locale.
         pub fn transliteration_locale(&self) -> Option<Locale> {
-            if let Some(language) = self.attr.attr("number:language") {
+            if let Some(language) = self.attr.attr("number:transliteration-language") {
                 if let Ok(language) = Language::try_from_utf8(language.as_bytes()) {
-                    let region = if let Some(region) = self.attr.attr("number:country") {
-                        Region::try_from_utf8(region.as_bytes()).ok()
-                    } else {
-                        None
-                    };
+                    let region =
+                        if let Some(region) = self.attr.attr("number:transliteration-country") {
+                            Region::try_from_utf8(region.as_bytes()).ok()
+                        } else {
+                            None
+                        };
 
                     let id = LanguageIdentifier::from((language, None, region));
 
-- 
2.43.0


From 0303e8aab8d193c5d95bbed2f059b487cda91c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:44:11 +0000
Subject: [PATCH 55/60] fix: PartFractionBuilder::min_integer_digits writes
 number:min-integer-digits

---
 src/format/builder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/format/builder.rs b/src/format/builder.rs
index 9be740c..8f3e8e0 100644
--- a/src/format/builder.rs
+++ b/src/format/builder.rs
@@ -432,7 +432,7 @@ impl<'vf, T: ValueFormatTrait> PartFractionBuilder<'vf, T> {
     #[must_use]
     pub fn min_integer_digits(mut self, v: u8) -> Self {
         self.part
-            .set_attr("number:min-numerator-digits", v.to_string());
+            .set_attr("number:min-integer-digits", v.to_string());
         self
     }
 
-- 
2.43.0


From 3d6464f87c151078332718e94d7ed5dc6446caca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:44:11 +0000
Subject: [PATCH 56/60] fix: set_row_height(Length::Default) removes the
 attribute instead of writing an empty one

---
 src/macro_attr_style.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/macro_attr_style.rs b/src/macro_attr_style.rs
index b33937a..5d9444c 100644
--- a/src/macro_attr_style.rs
+++ b/src/macro_attr_style.rs
@@ -1617,7 +1617,11 @@ macro_rules! style_row_height {
     ($acc:ident) => {
         /// The style:row-height attribute specifies a fixed row height
         pub fn set_row_height(&mut self, height: Length) {
-            self.$acc.set_attr("style:row-height", height.to_string());
+            if height == Length::Default {
+                self.$acc.clear_attr("style:row-height");
+            } else {
+                self.$acc.set_attr("style:row-height", height.to_string());
+            }
         }
 
         /// Parses the row height
-- 
2.43.0


From a812fd97fded273bb543bc5330093ce791dd09d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:44:11 +0000
Subject: [PATCH 57/60] fix: create_loc_currency_prefix adds the number once

---
 src/format/create.rs | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/src/format/create.rs b/src/format/create.rs
index 8322991..78380cb 100644
--- a/src/format/create.rs
+++ b/src/format/create.rs
@@ -73,11 +73,6 @@ where
         .symbol(symbol)
         .build();
     v.part_text(" ").build();
-    v.part_number()
-        .decimal_places(2)
-        .min_decimal_places(2)
-        .grouping()
-        .build();
     v.part_number()
         .decimal_places(2)
         .min_decimal_places(2)
-- 
2.43.0


From 151eb2c3c68449e60e599ff1af2ee7e226d4fff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:44:11 +0000
Subject: [PATCH 58/60] fix: the macros pc! and em! expand to valid code

---
 src/macro_units.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/macro_units.rs b/src/macro_units.rs
index efcfe75..12e99cc 100644
--- a/src/macro_units.rs
+++ b/src/macro_units.rs
@@ -58,7 +58,7 @@ macro_rules! pt {
 #[macro_export]
 macro_rules! pc {
     ($l:expr) => {
-        $crate::Length::Pc($l into()).into()
+        $crate::Length::Pc($l.into()).into()
     };
 }
 
@@ -66,6 +66,6 @@ macro_rules! pc {
 #[macro_export]
 macro_rules! em {
     ($l:expr) => {
-        $crate::Length::Em($l into()).into()
+        $crate::Length::Em($l.into()).into()
     };
 }
-- 
2.43.0


From 76aaf22788f8b3dad74ffb2be47f9bab62581e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:31:29 +0000
Subject: [PATCH 59/60] fix: keep the view settings of a sheet cloned without
 data

---
 src/sheet_.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sheet_.rs b/src/sheet_.rs
index 647ae16..ef8a86e 100644
--- a/src/sheet_.rs
+++ b/src/sheet_.rs
@@ -558,7 +558,7 @@ impl Sheet {
             print_ranges: self.print_ranges.clone(),
             group_rows: self.group_rows.clone(),
             group_cols: self.group_cols.clone(),
-            sheet_config: Default::default(),
+            sheet_config: self.sheet_config.clone(),
             extra: self.extra.clone(),
         }
     }
-- 
2.43.0


From e38c0d674f2e32cbc874427b26fe962e88ab7612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:57 +0000
Subject: [PATCH 60/60] fix: read 24:00:00 as the first instant of the
 following day

The schema type allows 24:00:00 for the end of a day. Such a date-time
was read as 1970-01-01.
---
 src/io/parse.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/io/parse.rs b/src/io/parse.rs
index 40b08d3..5fa0f0d 100644
--- a/src/io/parse.rs
+++ b/src/io/parse.rs
@@ -313,7 +313,13 @@ fn token_datetime(input: KSpan<'_>) -> KTokenResult<'_, NaiveDateTime> {
     p.year = Some((sign * year) as i32);
     p.month = Some(month as u32);
     p.day = Some(day as u32);
-    if let Some((_, hour, _, minute, _, second, nanos)) = time {
+    // 24:00:00 is the first instant of the following day.
+    let mut days = 0;
+    if let Some((_, mut hour, _, minute, _, second, nanos)) = time {
+        if hour == 24 && minute == 0 && second == 0 && nanos.map_or(true, |(_, v)| v == 0) {
+            hour = 0;
+            days = 1;
+        }
         p.hour_div_12 = Some((hour / 12) as u32);
         p.hour_mod_12 = Some((hour % 12) as u32);
         p.minute = Some(minute as u32);
@@ -329,7 +335,9 @@ fn token_datetime(input: KSpan<'_>) -> KTokenResult<'_, NaiveDateTime> {
     }
 
     match p.to_naive_datetime_with_offset(0) {
-        Ok(v) => Ok(v),
+        Ok(v) => Ok(v
+            .checked_add_signed(Duration::days(days))
+            .unwrap_or_default()),
         Err(_) => Ok(NaiveDateTime::default()),
     }
 }
-- 
2.43.0

