From 85d01ef159ea4e499e1e926d7b99bfae33d42cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:47 +0000
Subject: [PATCH 01/19] fix: displaying an inconsistency no longer recurses
 without end

---
 src/io/error.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io/error.rs b/src/io/error.rs
index 0176ae7..c20f969 100644
--- a/src/io/error.rs
+++ b/src/io/error.rs
@@ -226,12 +226,12 @@ impl Inconsistency {
 
 impl Display for Inconsistency {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
-        write!(f, "ProgramError: {}", self)
+        write!(f, "ProgramError: {}", self.description)
     }
 }
 
 impl Error for Inconsistency {
     fn source(&self) -> Option<&(dyn Error + 'static)> {
-        Some(self)
+        None
     }
 }
-- 
2.43.0


From 5bc96727e94feb1370094e71cecd752e355c3fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:28 +0000
Subject: [PATCH 02/19] fix: reading a number reports empty, malformed and too
 long texts as errors

---
 src/io/mps/number/parse.rs | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/io/mps/number/parse.rs b/src/io/mps/number/parse.rs
index 60e3a58..16e07a2 100644
--- a/src/io/mps/number/parse.rs
+++ b/src/io/mps/number/parse.rs
@@ -78,10 +78,14 @@ impl TryFrom<&str> for Raw {
     type Error = ParseError;
 
     fn try_from(text: &str) -> Result<Self, Self::Error> {
-        let (has_minus, text) = match &text[0..1] {
-            "-" => (true, &text[1..]),
-            _ => (false, text),
+        let (has_minus, text) = match text.strip_prefix('-') {
+            Some(text) => (true, text),
+            None => (false, text.strip_prefix('+').unwrap_or(text)),
         };
+        // The sign was already removed, while at least one digit is needed to denote a number.
+        if text.contains('+') || !text.contains(|c: char| c.is_ascii_digit()) {
+            return Err(ParseError::new(format!("Failed to read \"{}\" as a number.", text)));
+        }
 
         let parse = |text: &str, number_part| {
             if text.is_empty() {
@@ -99,12 +103,19 @@ impl TryFrom<&str> for Raw {
             None => (parse(text, "entire value")?, 0),
             Some(index) => {
                 let from_right = u32::try_from(text.len() - index - 1)
-                    .expect("It wouldn't make sense for the number text to be so large.");
+                    .map_err(|error| ParseError::wrap_other(error, "Number text is too large."))?;
 
                 let integer_part = parse(&text[0..index], "integer part")?;
                 let mantissa_part = parse(&text[(index + 1)..], "mantissa part")?;
 
-                (integer_part * 10_u64.pow(from_right) + mantissa_part, from_right)
+                let integer = 10_u64.checked_pow(from_right)
+                    .and_then(|factor| factor.checked_mul(integer_part))
+                    .and_then(|shifted| shifted.checked_add(mantissa_part))
+                    .ok_or_else(|| ParseError::new(format!(
+                        "Number \"{}\" has too many digits.", text,
+                    )))?;
+
+                (integer, from_right)
             },
         };
         
-- 
2.43.0


From f585b6b1de4986950e7729cdb35bd0cfbf61e3c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:51 +0000
Subject: [PATCH 03/19] fix: malformed MPS lines, duplicate columns and
 unsupported bounds are reported instead of panicking

---
 src/io/mps/parse/fixed.rs | 44 ++++++++++++++++++++++-----------------
 src/io/mps/parse/mod.rs   | 39 +++++++++++++++++++---------------
 2 files changed, 47 insertions(+), 36 deletions(-)

diff --git a/src/io/mps/parse/fixed.rs b/src/io/mps/parse/fixed.rs
index 32f08d2..a02e270 100644
--- a/src/io/mps/parse/fixed.rs
+++ b/src/io/mps/parse/fixed.rs
@@ -42,10 +42,10 @@ impl<'a> ColumnRetriever<'a> for Fixed {
 
     fn one_and_two(line: &str) -> ParseResult<[&str; 2]> {
         if line.len() > FIELDS[2].start {
-            let type_text = &line[FIELDS[1].clone()];
+            let type_text = field(line, FIELDS[1].clone())?;
 
             let name_field_end = FIELDS[2].end.min(line.len());
-            let name = line[FIELDS[2].start..name_field_end].trim_end();
+            let name = field(line, FIELDS[2].start..name_field_end)?.trim_end();
             if name.is_empty() {
                 Err(ParseError::new("Empty row name."))
             } else {
@@ -58,18 +58,18 @@ impl<'a> ColumnRetriever<'a> for Fixed {
 
     fn is_column_marker_line(line: &'a str) -> ParseResult<ColumnLineContent<'a, Self::RestOfLine>> {
         if line.len() >= FIELDS[4].end {
-            if &line[FIELDS[3].clone()] == COLUMN_SECTION_MARKER {
+            if field(line, FIELDS[3].clone())? == COLUMN_SECTION_MARKER {
                 if line.len() >= FIELDS[5].end {
-                    Ok(ColumnLineContent::Marker([&line[FIELDS[5].clone()]]))
+                    Ok(ColumnLineContent::Marker([field(line, FIELDS[5].clone())?]))
                 } else {
                     Err(ParseError::new("Line is too short to be a marker line."))
                 }
             } else {
                 Ok(ColumnLineContent::Data([
-                    line[FIELDS[2].clone()].trim_end(),
-                    line[FIELDS[3].clone()].trim_end(),
-                    line[FIELDS[4].clone()].trim_start(),
-                ], &line[FIELDS[4].end..]))
+                    field(line, FIELDS[2].clone())?.trim_end(),
+                    field(line, FIELDS[3].clone())?.trim_end(),
+                    field(line, FIELDS[4].clone())?.trim_start(),
+                ], field(line, FIELDS[4].end..line.len())?))
             }
         } else {
             Err(ParseError::new("Line is too short."))
@@ -79,10 +79,10 @@ impl<'a> ColumnRetriever<'a> for Fixed {
     fn two_through_four(line: &'a str) -> ParseResult<([&'a str; 3], Self::RestOfLine)> {
         if line.len() >= FIELDS[4].end {
             Ok(([
-                line[FIELDS[2].clone()].trim_end(),
-                line[FIELDS[3].clone()].trim_end(),
-                line[FIELDS[4].clone()].trim_start(),
-            ], &line[FIELDS[4].end..]))
+                field(line, FIELDS[2].clone())?.trim_end(),
+                field(line, FIELDS[3].clone())?.trim_end(),
+                field(line, FIELDS[4].clone())?.trim_start(),
+            ], field(line, FIELDS[4].end..line.len())?))
         } else {
             Err(ParseError::new("Line is too short."))
         }
@@ -94,8 +94,8 @@ impl<'a> ColumnRetriever<'a> for Fixed {
             let (five_start, five_end) = (FIELDS[5].start - FIELDS[4].end, FIELDS[5].end - FIELDS[4].end);
             let (six_start, six_end) = (FIELDS[6].start - FIELDS[4].end, FIELDS[6].end - FIELDS[4].end);
 
-            let five = line_after_first_four[five_start..five_end].trim_end();
-            let six = line_after_first_four[six_start..six_end].trim_start();
+            let five = field(line_after_first_four, five_start..five_end)?.trim_end();
+            let six = field(line_after_first_four, six_start..six_end)?.trim_start();
             if !five.is_empty() && !six.is_empty() {
                 Some([
                     five,
@@ -109,11 +109,12 @@ impl<'a> ColumnRetriever<'a> for Fixed {
 
     fn one_through_three(line: &'a str) -> ParseResult<([&'a str; 3], Self::RestOfLine)> {
         if line.len() >= FIELDS[3].start {
-            let type_text = &line[FIELDS[1].clone()];
-            let name = line[FIELDS[2].clone()].trim_end();
-            let column = line[FIELDS[3].clone()].trim_end();
+            let type_text = field(line, FIELDS[1].clone())?;
+            let name = field(line, FIELDS[2].clone())?.trim_end();
+            let column_field_end = FIELDS[3].end.min(line.len());
+            let column = field(line, FIELDS[3].start..column_field_end)?.trim_end();
 
-            let rest = &line[FIELDS[3].end..];
+            let rest = field(line, column_field_end..line.len())?;
 
             Ok(([type_text, name, column], rest))
         } else {
@@ -125,7 +126,7 @@ impl<'a> ColumnRetriever<'a> for Fixed {
         let end_of_column = FIELDS[4].end - FIELDS[3].end;
         if rest_of_line.len() >= end_of_column {
             let start_of_column = FIELDS[4].start - FIELDS[3].end;
-            let value_text = rest_of_line[start_of_column..end_of_column].trim_start();
+            let value_text = field(rest_of_line, start_of_column..end_of_column)?.trim_start();
             Ok([value_text])
         } else {
             Err(ParseError::new("Line doesn't contain another value, it's too short."))
@@ -133,6 +134,11 @@ impl<'a> ColumnRetriever<'a> for Fixed {
     }
 }
 
+/// Read a field of a line, which is an error if it can't be separated from what is next to it.
+fn field(line: &str, range: Range<usize>) -> ParseResult<&str> {
+    line.get(range).ok_or_else(|| ParseError::new("Could not separate the fields of the line."))
+}
+
 /// Character ranges for the different fields of the column.
 const FIELDS: [Range<usize>; 7] = [
     0..1,
diff --git a/src/io/mps/parse/mod.rs b/src/io/mps/parse/mod.rs
index ee371c3..3c957f3 100644
--- a/src/io/mps/parse/mod.rs
+++ b/src/io/mps/parse/mod.rs
@@ -59,7 +59,7 @@ fn parse<'a, F: Parse, CR: ColumnRetriever<'a>>(
 
     let (columns, cost_values, next_section) =
         parse_column_section::<_, CR, _>(&mut lines, &cost_row_name, &row_index)?;
-    let column_index = build_column_index(&columns);
+    let column_index = build_column_index(&columns)?;
 
     let (rhss, next_section) = if next_section == Section::Rhs {
         parse_optional_section::<_, CR, _, _, 2>(&mut lines, [Section::Ranges, Section::Bounds], &row_index)?
@@ -179,16 +179,15 @@ fn parse_program_name<'a, CR: ColumnRetriever<'a>>(
                 return Err(ParseError::with_location("Line too short.", (number, line)));
             }
 
-            let expected_name_string = &line[0..NAME.len()];
-            if expected_name_string == NAME {
-                let name = CR::two_or_three(&line[NAME.len()..])
+            if let Some(line_after_name) = line.strip_prefix(NAME) {
+                let name = CR::two_or_three(line_after_name)
                     .map_err(|e| e.wrap(format!("Could not read program name \
                     from line {}. Ths line looked like \"{}\"", number, line)))?[0];
                 Ok(name.to_string())
             } else {
                 Err(ParseError::with_location(
                     format!(
-                        "Expected a \"{}\" indicator, found \"{}\" instead", NAME, expected_name_string,
+                        "Expected a \"{}\" indicator, found \"{}\" instead", NAME, line,
                     ),
                     (number, line),
                 ))
@@ -387,7 +386,6 @@ fn parse_column_section<'a, F: Parse, CR: ColumnRetriever<'a>, L: Iterator<Item
                     )?;
 
                     // TODO(CORRECTNESS): Err when the type doesn't actually change?
-                    let previous_variable_type = active_variable_type;
                     active_variable_type = match marker_text {
                         START_OF_INTEGER => VariableType::Integer,
                         END_OF_INTEGER => VariableType::Continuous,
@@ -395,7 +393,6 @@ fn parse_column_section<'a, F: Parse, CR: ColumnRetriever<'a>, L: Iterator<Item
                             format!("Marker type \"{}\" unknown.", marker_text), (number, line),
                         ).into()),
                     };
-                    debug_assert_ne!(previous_variable_type, active_variable_type);
                 },
                 ColumnLineContent::Data([column_name, row_name, value_text], rest_of_line) => {
                     // Read the name of the group and save the group if necessary
@@ -418,6 +415,9 @@ fn parse_column_section<'a, F: Parse, CR: ColumnRetriever<'a>, L: Iterator<Item
                         match row_map.get(row_name) {
                             None => if row_name == cost_row_name {
                                 let column_index = collector.len();
+                                if matches!(cost_values_collector.last(), Some(&(j, _)) if j == column_index) {
+                                    return Err(Inconsistency::new("Duplicate cost value for a column.").into());
+                                }
                                 cost_values_collector.push((column_index, value))
                             } else {
                                 return Err(Inconsistency::new(format!("Row \"{}\" not known.", row_name)).into());
@@ -502,16 +502,21 @@ fn save_to_column_collector<F>(
 /// # Note
 ///
 /// This assignment is not a specific order.
-fn build_column_index<F>(columns: &[Column<F>]) -> HashMap<&str, usize> {
-    debug_assert_eq!(
-        columns.iter().map(|column| column.name.as_str()).collect::<HashSet<_>>().len(),
-        columns.len(),
-    );
-
-    columns.iter()
+///
+/// # Errors
+///
+/// If the values of a column are not listed consecutively, that column name appears twice.
+fn build_column_index<F>(columns: &[Column<F>]) -> Result<HashMap<&str, usize>, Inconsistency> {
+    let index = columns.iter()
         .enumerate()
         .map(|(index, column)| (column.name.as_str(), index))
-        .collect()
+        .collect::<HashMap<_, _>>();
+
+    if index.len() < columns.len() {
+        Err(Inconsistency::new("Not all column names are unique"))
+    } else {
+        Ok(index)
+    }
 }
 
 trait ListedInGroup {
@@ -741,7 +746,7 @@ fn parse_bound_line<'a, F: Parse, CR: ColumnRetriever<'a>>(
                 _ => unreachable!(),
             }
         },
-        "SC" => unimplemented!(),
+        "SC" => return Err(ParseError::new("Semi-continuous bounds are not supported.").into()),
         _ => return Err(ParseError::new(format!("Bound type \"{}\" unknown.", bound_type_text)).into()),
     };
 
@@ -821,7 +826,7 @@ impl FromStr for RowType {
     ///
     /// Any `String` slices not equal to either `N`, `L`, `E` or `G` will fair to be parsed.
     fn from_str(word: &str) -> Result<RowType, Self::Err> {
-        match &word[0..1] {
+        match word.trim() {
             "N" => Ok(RowType::Cost),
             "L" => Ok(RowType::Constraint(ConstraintRelation::Less)),
             "E" => Ok(RowType::Constraint(ConstraintRelation::Equal)),
-- 
2.43.0


From 8897f6323d28f0eda4c6ffc3a8cb3584eca051c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:51 +0000
Subject: [PATCH 04/19] fix: fixed format no longer drops a value that ends
 before the last field does

---
 src/io/mps/parse/fixed.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/io/mps/parse/fixed.rs b/src/io/mps/parse/fixed.rs
index a02e270..f0db43c 100644
--- a/src/io/mps/parse/fixed.rs
+++ b/src/io/mps/parse/fixed.rs
@@ -96,13 +96,19 @@ impl<'a> ColumnRetriever<'a> for Fixed {
 
             let five = field(line_after_first_four, five_start..five_end)?.trim_end();
             let six = field(line_after_first_four, six_start..six_end)?.trim_start();
-            if !five.is_empty() && !six.is_empty() {
-                Some([
+            match (five.is_empty(), six.is_empty()) {
+                (false, false) => Some([
                     five,
                     six,
-                ])
-            } else { None }
-        } else { None };
+                ]),
+                (true, true) => None,
+                _ => return Err(ParseError::new("Line has only one of the last two fields.")),
+            }
+        } else if line_after_first_four.trim().is_empty() {
+            None
+        } else {
+            return Err(ParseError::new("Line is too short to hold the last two fields."));
+        };
 
         Ok(result)
     }
-- 
2.43.0


From 19a41eefc7953e0e87337267e44d861dd1f4875e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:52 +0000
Subject: [PATCH 05/19] fix: coefficients that are zero in the file are not
 stored

---
 src/io/mps/convert.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/io/mps/convert.rs b/src/io/mps/convert.rs
index bf1b103..2101055 100644
--- a/src/io/mps/convert.rs
+++ b/src/io/mps/convert.rs
@@ -122,7 +122,11 @@ fn compute_variable_info<FI, FO: From<FI> + NonZero + Zero + One + Ord + Display
     process_bounds(&mut info, bounds)?;
     let (values, names): (Vec<_>, Vec<_>) = values_names.into_iter()
         .map(|(collection, names)| {
-            (collection.into_iter().map(|(i, v)| (i, v.into())).collect(), names)
+            let non_zero = collection.into_iter()
+                .map(|(i, v)| (i, v.into()))
+                .filter(|(_, v): &(usize, FO)| v.is_not_zero())
+                .collect();
+            (non_zero, names)
         })
         .unzip();
 
@@ -256,7 +260,9 @@ fn process_bound<FI, FO: From<FI> + Ord + Zero + One + Clone>(
             variable.variable_type = VariableType::Integer;
             Ok((true, false))
         },
-        BoundType::SemiContinuous(_, _) => unimplemented!(),
+        BoundType::SemiContinuous(_, _) => {
+            Err(Inconsistency::new("Semi-continuous variables are not supported"))
+        },
     }
 }
 
-- 
2.43.0


From e005d483fa6fe5ad7d300f05ca09b2108dfcc798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:28 +0000
Subject: [PATCH 06/19] fix: rows with a range but without, or with several
 equal, right hand sides

---
 src/io/mps/convert.rs | 49 +++++++++++++++++++++++++++++--------------
 1 file changed, 33 insertions(+), 16 deletions(-)

diff --git a/src/io/mps/convert.rs b/src/io/mps/convert.rs
index 2101055..f458027 100644
--- a/src/io/mps/convert.rs
+++ b/src/io/mps/convert.rs
@@ -447,7 +447,6 @@ fn compute_constraint_types<FI: Zero + PartialEq, FO: From<FI>>(
 ///
 /// When there is a trivial infeasibility due to multiple equality bounds being specified with
 /// different values.
-#[allow(unreachable_patterns)]
 fn compute_b<
     OFI: Sub<Output=OFI> + Abs + PartialOrd + Zero + Clone,
     OFO: From<OFI> + Zero + Abs + PartialOrd + Element + Display,
@@ -472,24 +471,15 @@ where
         match &mut b[i] {
             None => match &mut constraints[i] {
                 RangedConstraintRelation::Range(range) => {
-                    let range_sign = range.cmp(&&mut OFO::zero());
-                    if range < &mut OFO::zero() {
-                        *range = -&*range;
-                    }
-                    let value = value.into();
-                    let bound  = match (rows[i].constraint_type, range_sign) {
-                        (ConstraintRelation::Greater, _) => value + &*range,
-                        (ConstraintRelation::Less, _) => value,
-                        (ConstraintRelation::Equal, Ordering::Greater | Ordering::Equal) => value + &*range,
-                        (ConstraintRelation::Equal, Ordering::Less | Ordering::Equal) => value,
-                    };
-                    b[i] = Some(bound);
+                    b[i] = Some(include_range(value.into(), range, rows[i].constraint_type));
                 },
                 _ => b[i] = Some(value.into()),
             }
             Some(current) => {
-                // There can be at most one rhs value for each row that has a range.
-                debug_assert!(!matches!(constraints[i], RangedConstraintRelation::Range(_)));
+                // All rhs values for a row that has a range are equal, the first was processed.
+                if matches!(constraints[i], RangedConstraintRelation::Range(_)) {
+                    continue;
+                }
 
                 let converted: OFO = value.into();
                 match rows[i].constraint_type {
@@ -510,10 +500,37 @@ where
     }
 
     // Substitute the default value.
-    let b = b.into_iter().map(|value| value.unwrap_or_else(OFO::zero)).collect();
+    let b = b.into_iter().enumerate()
+        .map(|(i, value)| value.unwrap_or_else(|| match &mut constraints[i] {
+            RangedConstraintRelation::Range(range) => {
+                include_range(OFO::zero(), range, rows[i].constraint_type)
+            },
+            _ => OFO::zero(),
+        }))
+        .collect();
     Ok(DenseVector::new(b, nr_rows))
 }
 
+/// Compute the upper value of a constraint with a range, and make the range non negative.
+fn include_range<F: Zero + PartialOrd + Element>(
+    value: F,
+    range: &mut F,
+    constraint_type: ConstraintRelation,
+) -> F
+where
+    for<'r> F: Add<&'r F, Output=F>,
+    for<'r> &'r F: Neg<Output=F>,
+{
+    let range_is_negative = *range < F::zero();
+    if range_is_negative {
+        *range = -&*range;
+    }
+    match (constraint_type, range_is_negative) {
+        (ConstraintRelation::Greater, _) | (ConstraintRelation::Equal, false) => value + &*range,
+        (ConstraintRelation::Less, _) | (ConstraintRelation::Equal, true) => value,
+    }
+}
+
 #[cfg(test)]
 #[allow(clippy::shadow_unrelated)]
 mod test {
-- 
2.43.0


From eea56d6afcd0249c85bce547cc255de288537d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:34 +0000
Subject: [PATCH 07/19] fix: updating and computing the LU decomposition of a
 basis with a single row no longer panics

---
 .../carry/lower_upper/decomposition/mod.rs    |  2 +-
 .../carry/lower_upper/mod.rs                  | 31 ++++++++++++-------
 2 files changed, 20 insertions(+), 13 deletions(-)

diff --git a/src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/decomposition/mod.rs b/src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/decomposition/mod.rs
index 27abed3..d558f26 100644
--- a/src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/decomposition/mod.rs
+++ b/src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/decomposition/mod.rs
@@ -29,7 +29,7 @@ where
 
         // The number of columns gets smaller over time.
         let m = rows.len();
-        debug_assert!(m > 1);
+        debug_assert!(m > 0);
 
         // These values will be returned.
         // They stay the same size, although nothing will be changed in the last indices once they
diff --git a/src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/mod.rs b/src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/mod.rs
index 6ac98e0..f02c19d 100644
--- a/src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/mod.rs
+++ b/src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/mod.rs
@@ -147,21 +147,28 @@ where
             // In the usual case, subtract one because the column indices are shifted
             pivot_column_index - 1
         };
-        // Insert the spike
-        self.upper_triangular[disappearing_column_index] = spike;
+        // Permutation that rotates the pivot row to the bottom
+        let q = RotateToBackPermutation::new(pivot_column_index, self.m());
+        if m == 1 {
+            // There are no columns in `upper_triangular`, only the diagonal item is replaced
+            let (_, corner_value) = spike.pop().unwrap();
+            self.upper_diagonal[0] = corner_value;
+        } else {
+            // Insert the spike
+            self.upper_triangular[disappearing_column_index] = spike;
 
-        // Rotate the non-spike columns to the left, the spike ends up on the right
-        self.upper_triangular[disappearing_column_index..].rotate_left(1);
-        self.upper_diagonal[pivot_column_index..].rotate_left(1);
+            // Rotate the non-spike columns to the left, the spike ends up on the right
+            self.upper_triangular[disappearing_column_index..].rotate_left(1);
+            self.upper_diagonal[pivot_column_index..].rotate_left(1);
 
-        // Rotate the "empty except for one value" pivot row to the bottom
-        let q = RotateToBackPermutation::new(pivot_column_index, self.m());
-        for j in max(pivot_column_index, 1)..m {
-            q.forward_sorted(&mut self.upper_triangular[j - 1]);
+            // Rotate the "empty except for one value" pivot row to the bottom
+            for j in max(pivot_column_index, 1)..m {
+                q.forward_sorted(&mut self.upper_triangular[j - 1]);
+            }
+            let (corner_index, corner_value) = self.upper_triangular.last_mut().unwrap().pop().unwrap();
+            debug_assert_eq!(corner_index, self.m() - 1);
+            *self.upper_diagonal.last_mut().unwrap() = corner_value;
         }
-        let (corner_index, corner_value) = self.upper_triangular.last_mut().unwrap().pop().unwrap();
-        debug_assert_eq!(corner_index, self.m() - 1);
-        *self.upper_diagonal.last_mut().unwrap() = corner_value;
 
         // `upper_triangular` is diagonal again
         debug_assert!(self.upper_triangular.iter().all(|column| {
-- 
2.43.0


From addc39bd7980e0172423a4bb28238bcd49ca9622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:34 +0000
Subject: [PATCH 08/19] fix: deleting rows from a row removing provider no
 longer fails its own debug assertion

---
 .../two_phase/matrix_provider/filter/generic_wrapper.rs       | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/algorithm/two_phase/matrix_provider/filter/generic_wrapper.rs b/src/algorithm/two_phase/matrix_provider/filter/generic_wrapper.rs
index 62c6973..0afdd57 100644
--- a/src/algorithm/two_phase/matrix_provider/filter/generic_wrapper.rs
+++ b/src/algorithm/two_phase/matrix_provider/filter/generic_wrapper.rs
@@ -147,7 +147,7 @@ where
         debug_assert!(i < self.provider.nr_rows() - self.rows_to_skip.len());
 
         let in_original_problem = self.get_underlying_row_index(i);
-        debug_assert!(self.rows_to_skip.contains(&in_original_problem));
+        debug_assert!(!self.rows_to_skip.contains(&in_original_problem));
         let insertion_index = match self.rows_to_skip.binary_search(&in_original_problem) {
             Ok(_) => panic!("Deleting a row that already was deleted!"),
             Err(nr) => nr,
@@ -211,7 +211,7 @@ where
     /// * `i`: Index in the reduced version of the problem to be deleted from the original problem.
     fn delete_index(skip_indices_array: &mut Vec<usize>, i: usize) {
         let in_original_problem = RemoveRows::<MP>::get_underlying_index(skip_indices_array, i);
-        debug_assert!(skip_indices_array.contains(&in_original_problem));
+        debug_assert!(!skip_indices_array.contains(&in_original_problem));
 
         let insertion_index = match skip_indices_array.binary_search(&in_original_problem) {
             Ok(_) => panic!("Deleting an index that already was deleted."),
-- 
2.43.0


From 578b18381c86d02ac580703e91e26cc9cf3963a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:34 +0000
Subject: [PATCH 09/19] fix: scaling a problem in which no factors were found
 no longer panics

---
 .../general_form/presolve/scale/rational/mod.rs      | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/data/linear_program/general_form/presolve/scale/rational/mod.rs b/src/data/linear_program/general_form/presolve/scale/rational/mod.rs
index 9209629..eef8bd9 100644
--- a/src/data/linear_program/general_form/presolve/scale/rational/mod.rs
+++ b/src/data/linear_program/general_form/presolve/scale/rational/mod.rs
@@ -55,7 +55,9 @@ where
         // Optimize per factor
         let scale_per_factor = factorization.solve();
         // Aggregate scaling per factor
-        let scaling = combine_factors(scale_per_factor);
+        let scaling = combine_factors(
+            scale_per_factor, self.nr_active_constraints(), self.nr_active_variables(),
+        );
         // Apply the computed scaling
         scale(self, &scaling, |x, y| *x *= y, |x, y| *x /= y);
 
@@ -651,15 +653,15 @@ where
 /// The scaling is computed per factor but is applied at once. Combine the scaling of all factors.
 fn combine_factors<R>(
     scale_per_factor: Vec<(R::Factor, ((R::Power, Vec<R::Power>), Vec<R::Power>))>,
+    nr_rows: usize,
+    nr_columns: usize,
 ) -> Scaling<R>
 where
     R: NonZeroFactorizable<Power: Abs> + One,
     for<'r> R: MulAssign<&'r R::Factor> + DivAssign<&'r R::Factor>,
 {
-    debug_assert!(!scale_per_factor.is_empty());
-
-    let nr_rows = scale_per_factor[0].1.0.1.len();
-    let nr_columns = scale_per_factor[0].1.1.len();
+    debug_assert!(scale_per_factor.iter().all(|(_, ((_, rows), _))| rows.len() == nr_rows));
+    debug_assert!(scale_per_factor.iter().all(|(_, (_, columns))| columns.len() == nr_columns));
 
     let mut cost_factor = R::one();
     let mut constraint_row_factors = vec![R::one(); nr_rows];
-- 
2.43.0


From 7e2b468f771329886b9142da17c7ccee005c6b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:34 +0000
Subject: [PATCH 10/19] fix: the fixed cost is negated together with the other
 costs when a maximization becomes a minimization

---
 src/data/linear_program/general_form/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/data/linear_program/general_form/mod.rs b/src/data/linear_program/general_form/mod.rs
index c3b1019..90cbaa2 100644
--- a/src/data/linear_program/general_form/mod.rs
+++ b/src/data/linear_program/general_form/mod.rs
@@ -624,6 +624,7 @@ where
         if self.objective == Objective::Maximize {
             self.objective = Objective::Minimize;
 
+            self.fixed_cost *= -OF::one();
             for variable in &mut self.variables {
                 variable.cost *= -OF::one();
             }
-- 
2.43.0


From 849de49551780f87f7d70347a198b87d9d74e639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:34 +0000
Subject: [PATCH 11/19] fix: presolving a second time records removed variables
 under their original index

---
 src/data/linear_program/general_form/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/data/linear_program/general_form/mod.rs b/src/data/linear_program/general_form/mod.rs
index 90cbaa2..6253953 100644
--- a/src/data/linear_program/general_form/mod.rs
+++ b/src/data/linear_program/general_form/mod.rs
@@ -439,6 +439,7 @@ where
         self.fixed_cost += fixed_cost;
 
         for (j, variable) in solved_variables {
+            let j = self.from_active_to_original[j];
             self.original_variables[j].1 = OriginalVariable::Removed(variable);
         }
 
-- 
2.43.0


From 2c3c68e9b02b0c90b2567a0a18bee2bdd6ec45e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:55 +0000
Subject: [PATCH 12/19] fix: a range constraint whose activity lower bound
 equals its right-hand side no longer panics during presolve

---
 .../general_form/presolve/rule/domain_propagation.rs   | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/data/linear_program/general_form/presolve/rule/domain_propagation.rs b/src/data/linear_program/general_form/presolve/rule/domain_propagation.rs
index e481b45..408ba73 100644
--- a/src/data/linear_program/general_form/presolve/rule/domain_propagation.rs
+++ b/src/data/linear_program/general_form/presolve/rule/domain_propagation.rs
@@ -255,8 +255,8 @@ where
                 Err(LinearProgramType::Infeasible)
             },
 
-            // `l <= <a, x> (== <=) b == l`
-            (BoundDirection::Lower, Equal | Less, Ordering::Equal) |
+            // `l <= <a, x> (== =r= <=) b == l`
+            (BoundDirection::Lower, Equal | Range(_) | Less, Ordering::Equal) |
             // `u >= <a, x> (== >=) b = u`
             (BoundDirection::Upper, Equal | Greater, Ordering::Equal) => {
                 Ok(Some(ConstraintUpdate::SetVariablesToBound))
@@ -305,12 +305,6 @@ where
             (BoundDirection::Upper, Equal | Range(_) | Less | Greater, Ordering::Less) => {
                 Ok(None)
             },
-
-            // `l <= <a, x> =r= b == l`
-            (BoundDirection::Lower, Range(_), Ordering::Equal) => {
-                unreachable!("Would require the range to be zero, in which case it should be an \
-                              equality bound instead.")
-            },
         }
     }
 
-- 
2.43.0


From 42170966028f5b41491f59003b2b309f3574f25e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:55 +0000
Subject: [PATCH 13/19] fix: eliminating a one-sided slack from a range
 constraint keeps the lower side of the range

---
 .../general_form/presolve/rule/slack.rs       | 25 +++++++++++++------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/data/linear_program/general_form/presolve/rule/slack.rs b/src/data/linear_program/general_form/presolve/rule/slack.rs
index 0c96df4..5be0242 100644
--- a/src/data/linear_program/general_form/presolve/rule/slack.rs
+++ b/src/data/linear_program/general_form/presolve/rule/slack.rs
@@ -45,7 +45,7 @@ where
     /// <=  || <a, x> <= b - cl |                  |      <a, x> <= b - cl      |      |
     /// ==  || <a, x> <= b - cl | <a, x> >= b - cu |   <a, x> =c(u-l)= b - cl   |      |
     /// >=  ||                  | <a, x> >= b - cu |      <a, x> >= b - cu      |      |
-    /// =r= || <a, x> <= b - cl | <a, x> >= b - cu | <a, x> =r + c(u-l)= b - cl |      |
+    /// =r= || <a, x> <= b - cl | <a, x> >= b - r - cu | <a, x> =r + c(u-l)= b - cl |   |
     ///
     /// When c < 0:
     ///     ||      s >= l      |      s <= u      |         l <= s <= u        | free |
@@ -53,7 +53,7 @@ where
     /// <=  ||                  | <a, x> <= b - cu |      <a, x> <= b - cu      |      |
     /// ==  || <a, x> >= b - cl | <a, x> <= b - cu |   <a, x> =c(l-u)= b - cu   |      |
     /// >=  || <a, x> >= b - cl |                  |      <a, x> >= b - cl      |      |
-    /// =r= || <a, x> >= b - cl | <a, x> <= b - cu | <a, x> =r + c(l-u)= b - cu |      |
+    /// =r= || <a, x> >= b - r - cl | <a, x> <= b - cu | <a, x> =r + c(l-u)= b - cu |   |
     ///
     /// Note that nothing changes when the constraint is of type == and s has both a lower and
     /// upper bound (regardless of the sign of c). If a bound is adapted, the column is removed
@@ -157,13 +157,24 @@ where
             },
         };
 
+        // When only the lower side of a range constraint remains, it is that side that should hold
+        // with equality.
+        let lost_range = match (constraint_type, &new_constraint_type) {
+            (Range(range), Greater) => Some(range.clone()),
+            _ => None,
+        };
+
         let change = -&coefficient * &bound;
 
-        let removed = match constraint_type {
-            Equal | Range(_) => {
-                self.compute_removed_variable_solution(constraint, variable, &coefficient)
-            }
-            Greater | Less => RemovedVariable::Solved(bound),
+        let needs_row_to_recover = matches!(constraint_type, Equal | Range(_));
+        if let Some(range) = lost_range {
+            self.updates.change_b(constraint, -range);
+        }
+
+        let removed = if needs_row_to_recover {
+            self.compute_removed_variable_solution(constraint, variable, &coefficient)
+        } else {
+            RemovedVariable::Solved(bound)
         };
         self.counters.variable[variable] -= 1;
         self.remove_variable(variable, removed);
-- 
2.43.0


From a17c0b790b80b48e29a9292c167a0913bc7d80d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:16 +0000
Subject: [PATCH 14/19] fix: eliminated variables no longer count in the cached
 activity bounds of a constraint

---
 .../general_form/presolve/rule/fixed_variable.rs   |  6 ++++++
 .../general_form/presolve/rule/slack.rs            | 14 ++++++++++++++
 2 files changed, 20 insertions(+)

diff --git a/src/data/linear_program/general_form/presolve/rule/fixed_variable.rs b/src/data/linear_program/general_form/presolve/rule/fixed_variable.rs
index 76ecda9..29ff8bf 100644
--- a/src/data/linear_program/general_form/presolve/rule/fixed_variable.rs
+++ b/src/data/linear_program/general_form/presolve/rule/fixed_variable.rs
@@ -30,6 +30,12 @@ where
 
         for (constraint, coefficient) in self.counters.iter_active_column(variable) {
             self.updates.change_b(constraint, -coefficient * &value);
+
+            // The contribution of this variable moves from the activity to the right-hand side.
+            let (lower, upper) = &mut self.activity_bounds[constraint];
+            for activity_bound in lower.iter_mut().chain(upper.iter_mut()) {
+                *activity_bound += -coefficient * &value;
+            }
         }
         self.updates.fixed_cost += &self.general_form.variables[variable].cost * &value;
 
diff --git a/src/data/linear_program/general_form/presolve/rule/slack.rs b/src/data/linear_program/general_form/presolve/rule/slack.rs
index 5be0242..5da5a12 100644
--- a/src/data/linear_program/general_form/presolve/rule/slack.rs
+++ b/src/data/linear_program/general_form/presolve/rule/slack.rs
@@ -88,6 +88,11 @@ where
         // We see whether these are `None` here already such that `bounds` can be moved in the match
         let bounds_is_none = (lower.is_none(), upper.is_none());
         let coefficient_sign = coefficient.non_zero_signum();
+        // Bounds of the slack that are part of the lower and upper activity bound, respectively
+        let activity_contribution = match coefficient_sign {
+            Positive => bounds.clone(),
+            Negative => (bounds.1.clone(), bounds.0.clone()),
+        };
 
         // Patterns are ordered left to right, top to bottom and then by coefficient (positive to
         // negative)
@@ -164,6 +169,15 @@ where
             _ => None,
         };
 
+        // The slack no longer contributes to the known activity bounds of the constraint.
+        let (activity_lower, activity_upper) = &mut self.activity_bounds[constraint];
+        if let (Some(activity_bound), Some(contribution)) = (activity_lower, &activity_contribution.0) {
+            *activity_bound += -&coefficient * contribution;
+        }
+        if let (Some(activity_bound), Some(contribution)) = (activity_upper, &activity_contribution.1) {
+            *activity_bound += -&coefficient * contribution;
+        }
+
         let change = -&coefficient * &bound;
 
         let needs_row_to_recover = matches!(constraint_type, Equal | Range(_));
-- 
2.43.0


From f034c2f22bf8e326c33e85c8ad856f3c68691172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:55 +0000
Subject: [PATCH 15/19] fix: fixing all variables of a constraint to a bound
 updates the activity bounds of other constraints

---
 .../presolve/rule/domain_propagation.rs            | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/data/linear_program/general_form/presolve/rule/domain_propagation.rs b/src/data/linear_program/general_form/presolve/rule/domain_propagation.rs
index 408ba73..2d7d4ad 100644
--- a/src/data/linear_program/general_form/presolve/rule/domain_propagation.rs
+++ b/src/data/linear_program/general_form/presolve/rule/domain_propagation.rs
@@ -175,7 +175,7 @@ where
                     (false, true)
                 },
                 ConstraintUpdate::SetVariablesToBound => {
-                    let mut activity_counters_to_update = Vec::new();
+                    let mut changes = Vec::new();
                     for (variable, coefficient) in self.counters.iter_active_row(constraint) {
                         let variable_direction = direction * coefficient.non_zero_signum();
                         let bound = self.updates.variable_bound(variable, variable_direction)
@@ -190,16 +190,18 @@ where
                         }
                         // Update the other bound to be the same
                         let change = self.updates.update_bound(variable, !variable_direction, bound.clone());
-                        if change == BoundChange::NewBound {
-                            activity_counters_to_update.push((variable, !variable_direction));
-                        }
+                        changes.push((variable, !variable_direction, change));
                         debug_assert!(self.updates.is_variable_fixed(variable).is_some());
 
                         self.queues.substitution.push(variable);
                     }
 
-                    for (variable, direction) in activity_counters_to_update {
-                        self.update_activity_counters(variable, direction);
+                    for (variable, direction, change) in changes {
+                        match change {
+                            BoundChange::None => {},
+                            BoundChange::NewBound => self.update_activity_counters(variable, direction),
+                            BoundChange::BoundShift(shift) => self.update_activity_bounds(variable, direction, shift),
+                        }
                     }
 
                     (true, false)
-- 
2.43.0


From a8a800a641955fc833f95794f555392e7b141066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:19 +0000
Subject: [PATCH 16/19] fix: bounds that the removal of a constraint relies on
 are kept as permanent bounds

---
 .../presolve/rule/domain_propagation.rs            | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/data/linear_program/general_form/presolve/rule/domain_propagation.rs b/src/data/linear_program/general_form/presolve/rule/domain_propagation.rs
index 2d7d4ad..37fc9be 100644
--- a/src/data/linear_program/general_form/presolve/rule/domain_propagation.rs
+++ b/src/data/linear_program/general_form/presolve/rule/domain_propagation.rs
@@ -166,6 +166,16 @@ where
     ) -> Result<(bool, bool), LinearProgramType<OF>> {
         let constraint_update = self.constraint_update(constraint, bound, direction)?;
         if let Some(change) = constraint_update {
+            // The (partial) removal of the constraint relies on these bounds, they need to be kept
+            let relied_upon = self.counters.iter_active_row(constraint)
+                .map(|(variable, coefficient)| (variable, direction * coefficient.non_zero_signum()))
+                .collect::<Vec<_>>();
+            for key in relied_upon {
+                if let Some(bound_value) = self.updates.activity_bounds.remove(&key) {
+                    self.updates.bounds.insert(key, bound_value);
+                }
+            }
+
             let (remove_constraint, apply_variable_part) = match change {
                 ConstraintUpdate::Remove => (true, true), // TODO(CORRECTNESS): Should the second value be changed to `false`?
                 ConstraintUpdate::Replace(new_inequality, right_hand_side_shift) => {
@@ -184,10 +194,6 @@ where
                             // TODO(ARCHITECTURE): Try to avoid this clone.
                             .clone();
 
-                        // Move the bound over to the "permanent" bound changes
-                        if let Some(bound_value) = self.updates.activity_bounds.remove(&(variable, variable_direction)) {
-                            self.updates.bounds.insert((variable, variable_direction), bound_value);
-                        }
                         // Update the other bound to be the same
                         let change = self.updates.update_bound(variable, !variable_direction, bound.clone());
                         changes.push((variable, !variable_direction, change));
-- 
2.43.0


From a0e6eb9448f9cee190bf1e39284d6ef810e758f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:46 +0000
Subject: [PATCH 17/19] fix: a fixed variable is substituted before other
 presolve rules are applied to it

---
 src/data/linear_program/general_form/presolve/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data/linear_program/general_form/presolve/mod.rs b/src/data/linear_program/general_form/presolve/mod.rs
index 76cebc2..742d1e4 100644
--- a/src/data/linear_program/general_form/presolve/mod.rs
+++ b/src/data/linear_program/general_form/presolve/mod.rs
@@ -126,7 +126,7 @@ where
     /// `Err` type.
     pub(super) fn presolve_step(&mut self) -> Result<Change, LinearProgramType<OF>> {
         // Rules that are guaranteed to make the problem smaller
-        if let Some(variable) = self.queues.substitution.pop() {
+        while let Some(variable) = self.queues.substitution.pop() {
             if self.counters.is_variable_still_active(variable) {
                 return self.presolve_fixed_variable(variable)
                     // always removes a variable
-- 
2.43.0


From 622a02a77c678f4cf17301a6dd531354b681f209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:55 +0000
Subject: [PATCH 18/19] fix: a variable whose bounds cross is reported instead
 of panicking in presolve

---
 src/io/mps/convert.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/io/mps/convert.rs b/src/io/mps/convert.rs
index f458027..691edaa 100644
--- a/src/io/mps/convert.rs
+++ b/src/io/mps/convert.rs
@@ -182,6 +182,13 @@ fn process_bounds<FI, FO: From<FI> + Zero + One + Ord + Clone>(
 
     fill_in_default_lower_bounds(variable_info, needs_default_lower_bound);
 
+    let any_bounds_cross = variable_info.iter().any(|variable| {
+        matches!((&variable.lower_bound, &variable.upper_bound), (Some(l), Some(u)) if l > u)
+    });
+    if any_bounds_cross {
+        return Err(Inconsistency::new("The lower bound of a variable is larger than its upper bound."));
+    }
+
     Ok(())
 }
 
-- 
2.43.0


From a8dceba00c265a172a89acbded9624ab1a2c9232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:32:13 +0000
Subject: [PATCH 19/19] fix: rotating a permutation that is not the identity
 keeps its inverse in step

---
 .../inverse_maintenance/carry/lower_upper/permutation/full.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/permutation/full.rs b/src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/permutation/full.rs
index c6c653e..4db3875 100644
--- a/src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/permutation/full.rs
+++ b/src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/permutation/full.rs
@@ -87,7 +87,9 @@ impl Full {
         debug_assert!(i < self.len());
 
         self.forward[i..].rotate_right(1);
-        self.backward[i..].rotate_left(1);
+        for j in i..self.len() {
+            self.backward[self.forward[j]] = j;
+        }
     }
 }
 
-- 
2.43.0

