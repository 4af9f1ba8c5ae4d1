From 0f636884411789790ed9cb0255d34673eecff0ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:19 +0000
Subject: [PATCH 01/59] fix: require a word boundary after keywords in the
 grammar

`boolean = x` was parsed as the definition `bool ean = x`, and similarly for every
identifier starting with a type or keyword.
---
 zokrates_parser/src/zokrates.pest | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/zokrates_parser/src/zokrates.pest b/zokrates_parser/src/zokrates.pest
index af4998e..df851ec 100644
--- a/zokrates_parser/src/zokrates.pest
+++ b/zokrates_parser/src/zokrates.pest
@@ -22,13 +22,16 @@ constant_generics_list = _{ identifier ~ ("," ~ identifier)* }
 parameter_list = _{(parameter ~ ("," ~ parameter)*)?}
 parameter = { vis? ~ ty ~ _mut? ~ identifier }
 
+// a keyword does not extend into an identifier: `boolean`, `fields`, `mutable` or `privatekey` are plain identifiers
+keyword_end = _{ !(ASCII_ALPHANUMERIC | "_") }
+
 // basic types
-ty_field = {"field"}
-ty_bool = {"bool"}
-ty_u8 = {"u8"}
-ty_u16 = {"u16"}
-ty_u32 = {"u32"}
-ty_u64 = {"u64"}
+ty_field = @{"field" ~ keyword_end}
+ty_bool = @{"bool" ~ keyword_end}
+ty_u8 = @{"u8" ~ keyword_end}
+ty_u16 = @{"u16" ~ keyword_end}
+ty_u32 = @{"u32" ~ keyword_end}
+ty_u64 = @{"u64" ~ keyword_end}
 ty_basic = { ty_field | ty_bool | ty_u8 | ty_u16 | ty_u32 | ty_u64 }
 ty_basic_or_struct_or_tuple = { ty_basic | ty_struct | ty_tuple }
 ty_array = { ty_basic_or_struct_or_tuple ~ ("[" ~ expression ~ "]")+ }
@@ -45,10 +48,10 @@ ty_struct_definition = { "struct" ~ identifier ~ constant_generics_declaration?
 struct_field_list = _{ (struct_field ~ semicolon)* }
 struct_field = { typed_identifier }
 
-vis_private = {"private"}
-vis_public = {"public"}
+vis_private = @{"private" ~ keyword_end}
+vis_public = @{"public" ~ keyword_end}
 vis = { vis_private | vis_public }
-_mut = {"mut"}
+_mut = @{"mut" ~ keyword_end}
 
 
 // Statements
@@ -97,7 +100,8 @@ inline_tuple_single_expression_inner = _{ expression ~ "," }
 inline_tuple_multiple_expression_inner = _{ expression ~ ("," ~ expression)+ ~ ","? }
 
 block_expression = _{ "{" ~ statement* ~ expression ~ "}" }
-if_else_expression = { "if" ~ expression ~ block_expression ~ "else" ~ block_expression }
+if_keyword = @{ "if" ~ keyword_end }
+if_else_expression = { &if_keyword ~ "if" ~ expression ~ block_expression ~ "else" ~ block_expression }
 
 access = { array_access | call_access | dot_access }
 array_access = { "[" ~ range_or_expression ~ "]" }
-- 
2.43.0


From 33f1e3fa8cd1e1d68c5dfe9085bb6496706adb35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:20 +0000
Subject: [PATCH 02/59] fix: handle non-linear operands of field comparisons
 and powers

The flattener panicked on programs such as `x * y < z` or `(x * y) ** 2`.
---
 zokrates_codegen/src/lib.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/zokrates_codegen/src/lib.rs b/zokrates_codegen/src/lib.rs
index 9f6eea1..2348408 100644
--- a/zokrates_codegen/src/lib.rs
+++ b/zokrates_codegen/src/lib.rs
@@ -797,6 +797,10 @@ impl<'ast, T: Field> Flattener<'ast, T> {
                 let lhs_flattened = self.flatten_field_expression(statements_flattened, *e.left);
                 let rhs_flattened = self.flatten_field_expression(statements_flattened, *e.right);
 
+                // the operands are decomposed into bits and subtracted, so they must be linear
+                let lhs_flattened = self.identify_expression(lhs_flattened, statements_flattened);
+                let rhs_flattened = self.identify_expression(rhs_flattened, statements_flattened);
+
                 match (lhs_flattened, rhs_flattened) {
                     (e, FlatExpression::Value(c)) => {
                         self.constant_lt_check(statements_flattened, e, c.value)
@@ -2200,9 +2204,9 @@ impl<'ast, T: Field> Flattener<'ast, T> {
                         let base_flattened =
                             self.flatten_field_expression(statements_flattened, *e.left.clone());
 
-                        // we require from the base to be linear
-                        // TODO change that
-                        assert!(base_flattened.is_linear());
+                        // the base must be linear to be multiplied
+                        let base_flattened =
+                            self.identify_expression(base_flattened, statements_flattened);
 
                         // convert the exponent to bytes, big endian
                         let ebytes_be = exp.value.to_be_bytes();
-- 
2.43.0


From 095b8f049237043663a1be076ab969e765230bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:20 +0000
Subject: [PATCH 03/59] fix: cache whole bit decompositions in the flattener

The decomposition of an expression was cached after being truncated to the requested width,
so that requesting it again with a larger width dropped its high bits: in
`return ((x - y) & 3, x < y)` the comparison always returned true. In the other direction,
truncating a wider cached decomposition required the dropped bits to be 0.
---
 zokrates_codegen/src/lib.rs | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/zokrates_codegen/src/lib.rs b/zokrates_codegen/src/lib.rs
index 2348408..f27f845 100644
--- a/zokrates_codegen/src/lib.rs
+++ b/zokrates_codegen/src/lib.rs
@@ -1396,8 +1396,8 @@ impl<'ast, T: Field> Flattener<'ast, T> {
             UExpressionInner::Identifier(x) => {
                 let field = FlatExpression::identifier(*self.layout.get(&x.id).unwrap());
                 let bits = self.bits_cache.get(&field).map(|bits| {
-                    assert_eq!(bits.len(), target_bitwidth.to_usize());
-                    bits.clone()
+                    // the cached decomposition can be wider if the identifier is not in range
+                    bits[bits.len() - target_bitwidth.to_usize()..].to_vec()
                 });
                 FlatUExpression::with_field(field).bits(bits)
             }
@@ -1941,9 +1941,10 @@ impl<'ast, T: Field> Flattener<'ast, T> {
                 Entry::Occupied(entry) => {
                     let mut res: Vec<_> = entry.get().clone();
 
-                    // only keep the last `to` values and return the sum of the others
+                    // the expression is expected to fit in `from` bits: only keep the last `from` values and return
+                    // the sum of the others
                     let sum = res
-                        .drain(0..res.len().saturating_sub(to))
+                        .drain(0..res.len().saturating_sub(from))
                         .fold(FlatExpression::from(T::zero()), |acc, e| {
                             FlatExpression::add(acc, e)
                         });
@@ -1955,6 +1956,9 @@ impl<'ast, T: Field> Flattener<'ast, T> {
                         error,
                     ));
 
+                    // truncate to the `to` lowest bits
+                    res.drain(0..res.len().saturating_sub(to));
+
                     // sanity check that we have at most `to` values
                     assert!(res.len() <= to);
 
@@ -1994,15 +1998,16 @@ impl<'ast, T: Field> Flattener<'ast, T> {
                         error,
                     ));
 
+                    // cache the whole decomposition, as the same expression can be requested with another bitwidth
+                    self.bits_cache
+                        .insert(e.field.clone().unwrap(), bits.clone());
+                    self.bits_cache.insert(sum, bits.clone());
+
                     // truncate to the `to` lowest bits
                     let bits = bits[from - to..].to_vec();
 
                     assert_eq!(bits.len(), to);
 
-                    self.bits_cache
-                        .insert(e.field.clone().unwrap(), bits.clone());
-                    self.bits_cache.insert(sum, bits.clone());
-
                     bits
                 }
             };
-- 
2.43.0


From 9e74d992868208fe1aae152028ea9b3d6c72faf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:20 +0000
Subject: [PATCH 04/59] fix: do not overflow on for-loops with reversed bounds

---
 zokrates_analysis/src/reducer/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zokrates_analysis/src/reducer/mod.rs b/zokrates_analysis/src/reducer/mod.rs
index 2c2c37e..b68c1ee 100644
--- a/zokrates_analysis/src/reducer/mod.rs
+++ b/zokrates_analysis/src/reducer/mod.rs
@@ -309,7 +309,7 @@ impl<'ast, 'a, T: Field> ResultFolder<'ast, T> for Reducer<'ast, 'a, T> {
 
                 match (from.as_inner(), to.as_inner()) {
                     (UExpressionInner::Value(from), UExpressionInner::Value(to))
-                        if to.value - from.value > MAX_FOR_LOOP_SIZE =>
+                        if to.value.saturating_sub(from.value) > MAX_FOR_LOOP_SIZE =>
                     {
                         Err(Error::LoopTooLarge(to.value.saturating_sub(from.value)))
                     }
-- 
2.43.0


From 0e8961da68e00d6add0a147da9f67ea6ab66bc68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:20 +0000
Subject: [PATCH 05/59] fix: do not apply the ssa transformation twice to
 slices

`z = z[..]` made the compiler panic, as the slice referred to the assigned version.
---
 zokrates_analysis/src/reducer/mod.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/zokrates_analysis/src/reducer/mod.rs b/zokrates_analysis/src/reducer/mod.rs
index b68c1ee..41c4fe3 100644
--- a/zokrates_analysis/src/reducer/mod.rs
+++ b/zokrates_analysis/src/reducer/mod.rs
@@ -367,18 +367,18 @@ impl<'ast, 'a, T: Field> ResultFolder<'ast, T> for Reducer<'ast, 'a, T> {
         &mut self,
         e: zokrates_ast::typed::SliceExpression<'ast, T>,
     ) -> Result<zokrates_ast::typed::SliceOrExpression<'ast, T>, Self::Error> {
-        let array = self.ssa.fold_array_expression(*e.array);
-        let array = self.propagator.fold_array_expression(array)?;
+        // the slice is already in ssa form: transforming it again would make the right hand side
+        // of an assignment refer to the version which is being assigned
+
+        let array = self.propagator.fold_array_expression(*e.array)?;
         let array = self.fold_array_expression(array)?;
         let array = self.propagator.fold_array_expression(array)?;
 
-        let from = self.ssa.fold_uint_expression(*e.from);
-        let from = self.propagator.fold_uint_expression(from)?;
+        let from = self.propagator.fold_uint_expression(*e.from)?;
         let from = self.fold_uint_expression(from)?;
         let from = self.propagator.fold_uint_expression(from)?;
 
-        let to = self.ssa.fold_uint_expression(*e.to);
-        let to = self.propagator.fold_uint_expression(to)?;
+        let to = self.propagator.fold_uint_expression(*e.to)?;
         let to = self.fold_uint_expression(to)?;
         let to = self.propagator.fold_uint_expression(to)?;
 
-- 
2.43.0


From d6870aa22068d53ae908aec2345ed337c4cbf641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:20 +0000
Subject: [PATCH 06/59] fix: compute a sound upper bound for shifted unsigned
 integers

The maximum of a shift was computed by masking the maximum of an operand, which is not
monotonic, so later reductions could be too narrow and valid executions failed.
---
 zokrates_analysis/src/uint_optimizer.rs | 31 +++++++++++++++++--------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/zokrates_analysis/src/uint_optimizer.rs b/zokrates_analysis/src/uint_optimizer.rs
index c006cdd..8105b94 100644
--- a/zokrates_analysis/src/uint_optimizer.rs
+++ b/zokrates_analysis/src/uint_optimizer.rs
@@ -339,11 +339,21 @@ impl<'ast, T: Field> Folder<'ast, T> for UintOptimizer<'ast, T> {
 
                 match right.into_inner() {
                     UExpressionInner::Value(by) => {
-                        let e_max: num_bigint::BigUint =
-                            left.metadata.as_ref().unwrap().max.to_biguint();
-                        let max = e_max
-                            .shl(by.value as usize)
-                            .bitand(&(2_u128.pow(range as u32) - 1).into());
+                        // `left` is reduced, so it is bounded by `range_max`
+                        let e_max = std::cmp::min(
+                            left.metadata.as_ref().unwrap().max.to_biguint(),
+                            range_max.to_biguint(),
+                        );
+                        let max = e_max.shl(by.value as usize);
+                        // if bits can be shifted out, smaller values of `left` can lead to larger results
+                        let max = if max > range_max.to_biguint() {
+                            range_max
+                                .to_biguint()
+                                .shl(by.value as usize)
+                                .bitand(&range_max.to_biguint())
+                        } else {
+                            max
+                        };
 
                         let max = T::try_from(max).unwrap();
 
@@ -363,11 +373,12 @@ impl<'ast, T: Field> Folder<'ast, T> for UintOptimizer<'ast, T> {
 
                 match right.into_inner() {
                     UExpressionInner::Value(by) => {
-                        let e_max: num_bigint::BigUint =
-                            left.metadata.as_ref().unwrap().max.to_biguint();
-                        let max = e_max
-                            .bitand(&(2_u128.pow(range as u32) - 1).into())
-                            .shr(by.value as usize);
+                        // `left` is reduced, so it is bounded by `range_max`
+                        let e_max = std::cmp::min(
+                            left.metadata.as_ref().unwrap().max.to_biguint(),
+                            range_max.to_biguint(),
+                        );
+                        let max = e_max.shr(by.value as usize);
 
                         let max = T::try_from(max).unwrap();
 
-- 
2.43.0


From ecbfc33177d9928543c9a1de2dd1a4019ba00df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:20 +0000
Subject: [PATCH 07/59] fix: report unsigned integer division by a zero
 constant as an error

The compiler panicked on `x / 0` and `x % 0` between unsigned integer constants.
---
 zokrates_analysis/src/propagation.rs     | 2 ++
 zokrates_analysis/src/zir_propagation.rs | 1 +
 2 files changed, 3 insertions(+)

diff --git a/zokrates_analysis/src/propagation.rs b/zokrates_analysis/src/propagation.rs
index 03c98c3..45a66cf 100644
--- a/zokrates_analysis/src/propagation.rs
+++ b/zokrates_analysis/src/propagation.rs
@@ -749,6 +749,7 @@ impl<'ast, T: Field> ResultFolder<'ast, T> for Propagator<'ast, T> {
                 self.fold_uint_expression(*e.left)?.into_inner(),
                 self.fold_uint_expression(*e.right)?.into_inner(),
             ) {
+                (_, UExpressionInner::Value(v)) if v.value == 0 => Err(Error::DivisionByZero),
                 (UExpressionInner::Value(v1), UExpressionInner::Value(v2)) => {
                     Ok(UExpression::value(
                         (v1.value / v2.value) % 2_u128.pow(bitwidth.to_usize().try_into().unwrap()),
@@ -770,6 +771,7 @@ impl<'ast, T: Field> ResultFolder<'ast, T> for Propagator<'ast, T> {
                 self.fold_uint_expression(*e.left)?.into_inner(),
                 self.fold_uint_expression(*e.right)?.into_inner(),
             ) {
+                (_, UExpressionInner::Value(v)) if v.value == 0 => Err(Error::DivisionByZero),
                 (UExpressionInner::Value(v1), UExpressionInner::Value(v2)) => {
                     Ok(UExpression::value(
                         (v1.value % v2.value) % 2_u128.pow(bitwidth.to_usize().try_into().unwrap()),
diff --git a/zokrates_analysis/src/zir_propagation.rs b/zokrates_analysis/src/zir_propagation.rs
index d826099..0e88f6e 100644
--- a/zokrates_analysis/src/zir_propagation.rs
+++ b/zokrates_analysis/src/zir_propagation.rs
@@ -760,6 +760,7 @@ impl<'ast, T: Field> ResultFolder<'ast, T> for ZirPropagator<'ast, T> {
                 let e2 = self.fold_uint_expression(*e.right)?;
 
                 match (e1.into_inner(), e2.into_inner()) {
+                    (_, UExpressionInner::Value(n)) if n.value == 0 => Err(Error::DivisionByZero),
                     (UExpressionInner::Value(n1), UExpressionInner::Value(n2)) => {
                         Ok(UExpression::value(
                             (n1.value % n2.value) % 2_u128.pow(bitwidth.to_usize() as u32),
-- 
2.43.0


From 8f353ada9409cd7ba62476c04bb14c138f4f0b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:20 +0000
Subject: [PATCH 08/59] fix: report a remainder by zero as a division by zero

Running `x % 0` failed with an internal error meant for malicious provers.
---
 zokrates_analysis/src/panic_extractor.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/zokrates_analysis/src/panic_extractor.rs b/zokrates_analysis/src/panic_extractor.rs
index dd2628c..80a9730 100644
--- a/zokrates_analysis/src/panic_extractor.rs
+++ b/zokrates_analysis/src/panic_extractor.rs
@@ -150,6 +150,25 @@ impl<'ast, T: Field> Folder<'ast, T> for PanicExtractor<'ast, T> {
                 );
                 UExpression::div(n, d).into_inner()
             }
+            UExpressionInner::Rem(e) => {
+                let n = self.fold_uint_expression(*e.left);
+                let d = self.fold_uint_expression(*e.right);
+                self.panic_buffer.push(
+                    ZirStatement::assertion(
+                        BooleanExpression::not(
+                            BooleanExpression::uint_eq(
+                                d.clone().span(span),
+                                UExpression::value(0).annotate(b).span(span),
+                            )
+                            .span(span),
+                        )
+                        .span(span),
+                        RuntimeError::DivisionByZero,
+                    )
+                    .span(span),
+                );
+                UExpression::rem(n, d).into_inner()
+            }
             e => fold_uint_expression_cases(self, b, e),
         }
     }
-- 
2.43.0


From d37b786159c297545d283d4aacdeeb65fb0b6944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:20 +0000
Subject: [PATCH 09/59] fix: check nested array accesses for out of bounds

Only the outermost access of an expression was checked, and the compiler panicked on
constant out of bounds inner accesses.
---
 zokrates_analysis/src/out_of_bounds.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/zokrates_analysis/src/out_of_bounds.rs b/zokrates_analysis/src/out_of_bounds.rs
index e00cf17..d05f847 100644
--- a/zokrates_analysis/src/out_of_bounds.rs
+++ b/zokrates_analysis/src/out_of_bounds.rs
@@ -1,7 +1,7 @@
 use std::fmt;
 use zokrates_ast::typed::{
-    result_folder::*, Expr, SelectExpression, SelectOrExpression, Type, TypedAssignee,
-    TypedProgram, UExpressionInner,
+    result_folder::*, Expr, Select, SelectExpression, SelectOrExpression, Type, TypedAssignee,
+    TypedExpression, TypedProgram, UExpressionInner,
 };
 use zokrates_field::Field;
 
@@ -25,9 +25,14 @@ impl OutOfBoundsChecker {
 impl<'ast, T: Field> ResultFolder<'ast, T> for OutOfBoundsChecker {
     type Error = Error;
 
-    fn fold_select_expression<E: Expr<'ast, T>>(
+    fn fold_select_expression<
+        E: Expr<'ast, T>
+            + Select<'ast, T>
+            + Into<TypedExpression<'ast, T>>
+            + From<TypedExpression<'ast, T>>,
+    >(
         &mut self,
-        _: &E::Ty,
+        ty: &E::Ty,
         s: SelectExpression<'ast, T, E>,
     ) -> Result<SelectOrExpression<'ast, T, E>, Self::Error> {
         match (s.index.as_inner(), s.array.size().as_inner()) {
@@ -37,7 +42,7 @@ impl<'ast, T: Field> ResultFolder<'ast, T> for OutOfBoundsChecker {
                     s, s.array, size
                 )))
             }
-            _ => Ok(SelectOrExpression::Select(s)),
+            _ => fold_select_expression(self, ty, s),
         }
     }
 
-- 
2.43.0


From 0a00d7133d26f29180e36be060c4817b796a136f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:20 +0000
Subject: [PATCH 10/59] fix: allow slicing constants defined with array
 repetition

The compiler panicked on slices of constants such as `[0; 3]`.
---
 zokrates_ast/src/typed/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zokrates_ast/src/typed/mod.rs b/zokrates_ast/src/typed/mod.rs
index 1178666..049d25d 100644
--- a/zokrates_ast/src/typed/mod.rs
+++ b/zokrates_ast/src/typed/mod.rs
@@ -3544,7 +3544,7 @@ impl<'ast, T: Field> Constant for ArrayExpression<'ast, T> {
                             _ => unreachable!(),
                         };
 
-                        let v = match e.array.into_inner() {
+                        let v = match e.array.into_canonical_constant().into_inner() {
                             ArrayExpressionInner::Value(v) => v,
                             _ => unreachable!(),
                         };
@@ -3589,7 +3589,7 @@ impl<'ast, T: Field> Constant for ArrayExpression<'ast, T> {
                     _ => unreachable!("should be a uint value"),
                 };
 
-                let v = match e.array.into_inner() {
+                let v = match e.array.into_canonical_constant().into_inner() {
                     ArrayExpressionInner::Value(v) => v,
                     _ => unreachable!("should be an array value"),
                 };
-- 
2.43.0


From 289534cf23f7922ae379a92ca86e3d113750b689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:20 +0000
Subject: [PATCH 11/59] fix: give slices with literal bounds a literal size

Two slices of equal literal sizes had different types when nested in tuples or structs.
---
 zokrates_core/src/semantics.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/zokrates_core/src/semantics.rs b/zokrates_core/src/semantics.rs
index b1646e1..d1303b6 100644
--- a/zokrates_core/src/semantics.rs
+++ b/zokrates_core/src/semantics.rs
@@ -3115,13 +3115,21 @@ impl<'ast, T: Field> Checker<'ast, T> {
                                                     ),
                                                 })?;
 
+                                // a slice between literals has a literal size
+                                let size = match (from.as_inner(), to.as_inner()) {
+                                    (UExpressionInner::Value(from), UExpressionInner::Value(to)) => {
+                                        UExpression::from(to.value.saturating_sub(from.value) as u32)
+                                    }
+                                    _ => UExpression::floor_sub(to.clone(), from.clone()),
+                                };
+
                                 Ok(ArrayExpressionInner::Slice(
                                     SliceExpression::new(
                                     array,
-                                    from.clone(),
-                                    to.clone(),
+                                    from,
+                                    to,
                                     ))
-                                .annotate(ArrayType::new(inner_type, UExpression::floor_sub(to, from)))
+                                .annotate(ArrayType::new(inner_type, size))
                                 .into())
                             }
                             e => Err(ErrorInner {
-- 
2.43.0


From cff937a39260a25cab72e20a9bbe1c5dc2d1c656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:20 +0000
Subject: [PATCH 12/59] fix: read the whole right hand side before assigning
 composite elements

`r[0] = (r[0].1, r[0].0)` read the first component after having overwritten it.
---
 .../src/flatten_complex_types.rs              | 43 +++++++++++++++++--
 1 file changed, 40 insertions(+), 3 deletions(-)

diff --git a/zokrates_analysis/src/flatten_complex_types.rs b/zokrates_analysis/src/flatten_complex_types.rs
index 3aa597c..fa24467 100644
--- a/zokrates_analysis/src/flatten_complex_types.rs
+++ b/zokrates_analysis/src/flatten_complex_types.rs
@@ -14,6 +14,8 @@ use zokrates_field::Field;
 
 #[derive(Default)]
 pub struct Flattener<T: Field> {
+    // the number of temporary variables introduced so far
+    temporary_count: usize,
     phantom: PhantomData<T>,
 }
 
@@ -651,10 +653,45 @@ fn fold_statement<'ast, T: Field>(
             let a = f.fold_assignee(a);
             let e = f.fold_expression(statements_buffer, e);
             assert_eq!(a.len(), e.len());
-            a.into_iter()
+            // the assignment is simultaneous: an element of the right hand side can refer to the previous value of
+            // an element of the assignee which gets redefined before it, for example in `a[0] = (a[0].1, a[0].0)`
+            // in this case, evaluate it before anything is redefined
+            let mut assigned = std::collections::HashSet::new();
+            let mut temporaries = vec![];
+            let definitions: Vec<_> = a
+                .into_iter()
                 .zip(e)
-                .map(|(a, e)| zir::ZirStatement::definition(a, e))
-                .collect()
+                .map(|(a, e)| {
+                    let mut finder = ArgumentFinder::default();
+                    let e = finder.fold_expression(e);
+                    let e = if finder.identifiers.keys().any(|id| assigned.contains(id)) {
+                        let temporary = zir::Variable::new(
+                            zir::Identifier::internal(f.temporary_count),
+                            a.get_type(),
+                        );
+                        f.temporary_count += 1;
+                        temporaries.push(zir::ZirStatement::definition(temporary.clone(), e));
+                        match temporary.get_type() {
+                            zir::Type::FieldElement => {
+                                zir::FieldElementExpression::identifier(temporary.id).into()
+                            }
+                            zir::Type::Boolean => {
+                                zir::BooleanExpression::identifier(temporary.id).into()
+                            }
+                            zir::Type::Uint(bitwidth) => {
+                                zir::UExpression::identifier(temporary.id)
+                                    .annotate(bitwidth)
+                                    .into()
+                            }
+                        }
+                    } else {
+                        e
+                    };
+                    assigned.insert(a.id.clone());
+                    zir::ZirStatement::definition(a, e)
+                })
+                .collect();
+            temporaries.into_iter().chain(definitions).collect()
         }
         typed::TypedStatement::Assertion(s) => {
             let e = f.fold_boolean_expression(statements_buffer, s.expression);
-- 
2.43.0


From 2398dd2715ebc63ce533ad2e24b59a0694c75a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:36 +0000
Subject: [PATCH 13/59] fix: handle non-linear operands of asserted field
 comparisons

The compiler panicked on `assert(x * y < 5)`.
---
 zokrates_codegen/src/lib.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/zokrates_codegen/src/lib.rs b/zokrates_codegen/src/lib.rs
index f27f845..7407c56 100644
--- a/zokrates_codegen/src/lib.rs
+++ b/zokrates_codegen/src/lib.rs
@@ -2455,6 +2455,10 @@ impl<'ast, T: Field> Flattener<'ast, T> {
                         let lhs = self.flatten_field_expression(statements_flattened, *e.left);
                         let rhs = self.flatten_field_expression(statements_flattened, *e.right);
 
+                        // the operands are decomposed into bits and subtracted, so they must be linear
+                        let lhs = self.identify_expression(lhs, statements_flattened);
+                        let rhs = self.identify_expression(rhs, statements_flattened);
+
                         match (lhs, rhs) {
                             (e, FlatExpression::Value(c)) => self.enforce_constant_lt_check(
                                 statements_flattened,
@@ -2501,6 +2505,10 @@ impl<'ast, T: Field> Flattener<'ast, T> {
                         let lhs = self.flatten_field_expression(statements_flattened, *e.left);
                         let rhs = self.flatten_field_expression(statements_flattened, *e.right);
 
+                        // the operands are decomposed into bits and subtracted, so they must be linear
+                        let lhs = self.identify_expression(lhs, statements_flattened);
+                        let rhs = self.identify_expression(rhs, statements_flattened);
+
                         match (lhs, rhs) {
                             (e, FlatExpression::Value(c)) => self.enforce_constant_le_check(
                                 statements_flattened,
-- 
2.43.0


From 142ede2673df9b0c5a3d4429af083c397bf55f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:39 +0000
Subject: [PATCH 14/59] fix: report the user's assertion when asserting that a
 value is not zero

---
 zokrates_codegen/src/lib.rs | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/zokrates_codegen/src/lib.rs b/zokrates_codegen/src/lib.rs
index 7407c56..a589a56 100644
--- a/zokrates_codegen/src/lib.rs
+++ b/zokrates_codegen/src/lib.rs
@@ -2663,7 +2663,11 @@ impl<'ast, T: Field> Flattener<'ast, T> {
                                     let x = self
                                         .flatten_uint_expression(statements_flattened, *b.right)
                                         .get_field_unchecked();
-                                    self.enforce_not_zero_assertion(statements_flattened, x)
+                                    self.enforce_not_zero_assertion(
+                                        statements_flattened,
+                                        x,
+                                        error.into(),
+                                    )
                                 } else if let UExpressionInner::Value(ValueExpression {
                                     value: 0,
                                     ..
@@ -2672,7 +2676,11 @@ impl<'ast, T: Field> Flattener<'ast, T> {
                                     let x = self
                                         .flatten_uint_expression(statements_flattened, *b.left)
                                         .get_field_unchecked();
-                                    self.enforce_not_zero_assertion(statements_flattened, x)
+                                    self.enforce_not_zero_assertion(
+                                        statements_flattened,
+                                        x,
+                                        error.into(),
+                                    )
                                 } else {
                                     self.enforce_naive_assertion(
                                         statements_flattened,
@@ -2697,7 +2705,11 @@ impl<'ast, T: Field> Flattener<'ast, T> {
                                     }),
                                 ) if zero == T::from(0) => {
                                     let x = self.flatten_field_expression(statements_flattened, x);
-                                    self.enforce_not_zero_assertion(statements_flattened, x)
+                                    self.enforce_not_zero_assertion(
+                                        statements_flattened,
+                                        x,
+                                        error.into(),
+                                    )
                                 }
                                 (left, right) => self.enforce_naive_assertion(
                                     statements_flattened,
@@ -2830,10 +2842,12 @@ impl<'ast, T: Field> Flattener<'ast, T> {
     ///
     /// * `statements_flattened` - `FlatStatements<'ast, T>` Vector where new flattened statements can be added.
     /// * `x` - `FlatExpression<T>` The expression to be constrained to not be zero.
+    /// * `error` - the error to throw at runtime if it is.
     fn enforce_not_zero_assertion(
         &mut self,
         statements_flattened: &mut FlatStatements<'ast, T>,
         x: FlatExpression<T>,
+        error: RuntimeError,
     ) {
         // introduce intermediate variable
         let x_id = self.define(x, statements_flattened);
@@ -2852,7 +2866,7 @@ impl<'ast, T: Field> Flattener<'ast, T> {
         statements_flattened.push_back(FlatStatement::condition(
             FlatExpression::value(T::one()),
             FlatExpression::mul(invx.into(), x_id.into()),
-            RuntimeError::Inverse,
+            error,
         ));
     }
 
-- 
2.43.0


From 593bb71b5e331ffbd2197807eed4207786227edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:17 +0000
Subject: [PATCH 15/59] fix: require a word boundary after the return keyword

---
 zokrates_parser/src/zokrates.pest | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/zokrates_parser/src/zokrates.pest b/zokrates_parser/src/zokrates.pest
index df851ec..a8f29e3 100644
--- a/zokrates_parser/src/zokrates.pest
+++ b/zokrates_parser/src/zokrates.pest
@@ -65,7 +65,8 @@ statement = { (iteration_statement | asm_statement // does not require semicolon
 log_statement = { "log" ~ "(" ~ quoted_string ~ "," ~ expression_list ~ ")"}
 block_statement = _{ "{" ~ statement* ~ "}" }
 iteration_statement = { "for" ~ typed_identifier ~ "in" ~ expression ~ ".." ~ expression ~ block_statement }
-return_statement = { "return" ~ expression? }
+return_keyword = @{ "return" ~ keyword_end }
+return_statement = { &return_keyword ~ "return" ~ expression? }
 definition_statement = { typed_identifier_or_assignee ~ "=" ~ expression }
 assertion_statement = {"assert" ~ "(" ~ expression ~ ("," ~ quoted_string)? ~ ")"}
 
-- 
2.43.0


From bd03dacf716ad9b681df6a58ac0264ba380eb352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:32 +0000
Subject: [PATCH 16/59] fix: name the curve of pallas and vesta programs

---
 zokrates_ast/src/ir/serialize.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zokrates_ast/src/ir/serialize.rs b/zokrates_ast/src/ir/serialize.rs
index 4e5ff7a..1c809d6 100644
--- a/zokrates_ast/src/ir/serialize.rs
+++ b/zokrates_ast/src/ir/serialize.rs
@@ -67,8 +67,8 @@ impl<
             ProgEnum::Bls12_381Program(_) => Bls12_381Field::name(),
             ProgEnum::Bls12_377Program(_) => Bls12_377Field::name(),
             ProgEnum::Bw6_761Program(_) => Bw6_761Field::name(),
-            ProgEnum::PallasProgram(_) => Bls12_377Field::name(),
-            ProgEnum::VestaProgram(_) => Bw6_761Field::name(),
+            ProgEnum::PallasProgram(_) => PallasField::name(),
+            ProgEnum::VestaProgram(_) => VestaField::name(),
         }
     }
 }
-- 
2.43.0


From f1147635e93845704991768aee037443a17469c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:32 +0000
Subject: [PATCH 17/59] fix: give the module map section its own type

---
 zokrates_ast/src/ir/serialize.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zokrates_ast/src/ir/serialize.rs b/zokrates_ast/src/ir/serialize.rs
index 1c809d6..87a06f2 100644
--- a/zokrates_ast/src/ir/serialize.rs
+++ b/zokrates_ast/src/ir/serialize.rs
@@ -249,7 +249,7 @@ impl<'ast, T: Field, I: IntoIterator<Item = Statement<'ast, T>>> ProgIterator<'a
 
         // write module map section
         let module_map = {
-            let mut section = Section::new(SectionType::Solvers);
+            let mut section = Section::new(SectionType::Modules);
             section.set_offset(w.stream_position()?);
 
             serde_cbor::to_writer(&mut w, &self.module_map)?;
-- 
2.43.0


From 971d2f60591b241da2d035f1617e3a9bb6b369fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:42 +0000
Subject: [PATCH 18/59] fix: do not take an unreadable statement for the end of
 the program

---
 zokrates_ast/src/ir/serialize.rs | 44 ++++++++++++++++++++++++--------
 1 file changed, 34 insertions(+), 10 deletions(-)

diff --git a/zokrates_ast/src/ir/serialize.rs b/zokrates_ast/src/ir/serialize.rs
index 87a06f2..4864b24 100644
--- a/zokrates_ast/src/ir/serialize.rs
+++ b/zokrates_ast/src/ir/serialize.rs
@@ -5,7 +5,7 @@ use crate::ir::ModuleMap;
 use byteorder::{LittleEndian, ReadBytesExt, WriteBytesExt};
 use serde::Deserialize;
 use serde_cbor::{self, StreamDeserializer};
-use std::io::{Read, Seek, Write};
+use std::io::{Read, Seek, Take, Write};
 use zokrates_field::*;
 
 type DynamicError = Box<dyn std::error::Error>;
@@ -288,19 +288,43 @@ impl<'de, R: serde_cbor::de::Read<'de>, T: serde::Deserialize<'de>> Iterator
     type Item = T;
 
     fn next(&mut self) -> Option<T> {
-        self.s.next().and_then(|v| v.ok())
+        self.s.next().map(|v| v.expect("Cannot read statements"))
     }
 }
 
 impl<'de, R: Read + Seek>
     ProgEnum<
         'de,
-        UnwrappedStreamDeserializer<'de, serde_cbor::de::IoRead<R>, Statement<'de, Bls12_381Field>>,
-        UnwrappedStreamDeserializer<'de, serde_cbor::de::IoRead<R>, Statement<'de, Bn128Field>>,
-        UnwrappedStreamDeserializer<'de, serde_cbor::de::IoRead<R>, Statement<'de, Bls12_377Field>>,
-        UnwrappedStreamDeserializer<'de, serde_cbor::de::IoRead<R>, Statement<'de, Bw6_761Field>>,
-        UnwrappedStreamDeserializer<'de, serde_cbor::de::IoRead<R>, Statement<'de, PallasField>>,
-        UnwrappedStreamDeserializer<'de, serde_cbor::de::IoRead<R>, Statement<'de, VestaField>>,
+        UnwrappedStreamDeserializer<
+            'de,
+            serde_cbor::de::IoRead<Take<R>>,
+            Statement<'de, Bls12_381Field>,
+        >,
+        UnwrappedStreamDeserializer<
+            'de,
+            serde_cbor::de::IoRead<Take<R>>,
+            Statement<'de, Bn128Field>,
+        >,
+        UnwrappedStreamDeserializer<
+            'de,
+            serde_cbor::de::IoRead<Take<R>>,
+            Statement<'de, Bls12_377Field>,
+        >,
+        UnwrappedStreamDeserializer<
+            'de,
+            serde_cbor::de::IoRead<Take<R>>,
+            Statement<'de, Bw6_761Field>,
+        >,
+        UnwrappedStreamDeserializer<
+            'de,
+            serde_cbor::de::IoRead<Take<R>>,
+            Statement<'de, PallasField>,
+        >,
+        UnwrappedStreamDeserializer<
+            'de,
+            serde_cbor::de::IoRead<Take<R>>,
+            Statement<'de, VestaField>,
+        >,
     >
 {
     fn read<T: Field>(
@@ -309,7 +333,7 @@ impl<'de, R: Read + Seek>
     ) -> ProgIterator<
         'de,
         T,
-        UnwrappedStreamDeserializer<'de, serde_cbor::de::IoRead<R>, Statement<'de, T>>,
+        UnwrappedStreamDeserializer<'de, serde_cbor::de::IoRead<Take<R>>, Statement<'de, T>>,
     > {
         let parameters = {
             let section = &header.sections[0];
@@ -345,7 +369,7 @@ impl<'de, R: Read + Seek>
             let section = &header.sections[1];
             r.seek(std::io::SeekFrom::Start(section.offset)).unwrap();
 
-            let p = serde_cbor::Deserializer::from_reader(r);
+            let p = serde_cbor::Deserializer::from_reader(r.take(section.length));
             let s = p.into_iter::<Statement<T>>();
 
             UnwrappedStreamDeserializer { s }
-- 
2.43.0


From d75681e91ac87d01392fa85325d40c0a9717e1bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:42 +0000
Subject: [PATCH 19/59] fix: keep indexed solvers when writing a program again

---
 zokrates_ast/src/ir/serialize.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/zokrates_ast/src/ir/serialize.rs b/zokrates_ast/src/ir/serialize.rs
index 4864b24..872eb43 100644
--- a/zokrates_ast/src/ir/serialize.rs
+++ b/zokrates_ast/src/ir/serialize.rs
@@ -208,8 +208,12 @@ impl<'ast, T: Field, I: IntoIterator<Item = Statement<'ast, T>>> ProgIterator<'a
             section
         };
 
-        let mut solver_indexer: SolverIndexer<'ast, T> = SolverIndexer::default();
         let mut unconstrained_variable_detector = UnconstrainedVariableDetector::new(&self);
+        // keep the solvers already indexed, statements refer to them
+        let mut solver_indexer: SolverIndexer<'ast, T> = SolverIndexer {
+            solvers: self.solvers,
+            ..SolverIndexer::default()
+        };
         let mut count: usize = 0;
 
         // write constraints section
-- 
2.43.0


From c7b0068836affc50b3998d16476985438347b62d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:14 +0000
Subject: [PATCH 20/59] fix: write circom coefficients in as many bytes as the
 prime takes

---
 zokrates_circom/src/r1cs.rs | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/zokrates_circom/src/r1cs.rs b/zokrates_circom/src/r1cs.rs
index 00c0d8d..2cb6a6b 100644
--- a/zokrates_circom/src/r1cs.rs
+++ b/zokrates_circom/src/r1cs.rs
@@ -159,7 +159,7 @@ pub fn write_r1cs<T: Field, W: Write>(writer: &mut W, p: Prog<T>) -> Result<()>
     // section type: constraints
     // type
     writer.write_u32::<LittleEndian>(2)?;
-    // size: 4 per lc + (32 + 4) per summand
+    // size: 4 per lc + (`modulo_byte_count` + 4) per summand
     let size = constraints
         .iter()
         .map(|(a, b, c)| {
@@ -171,13 +171,13 @@ pub fn write_r1cs<T: Field, W: Write>(writer: &mut W, p: Prog<T>) -> Result<()>
         .sum();
     writer.write_u64::<LittleEndian>(size)?;
 
-    write_constraints(writer, constraints)?;
+    write_constraints(writer, constraints, modulo_byte_count as usize)?;
 
     // section type: header
     // type
     writer.write_u32::<LittleEndian>(1)?;
     // size
-    writer.write_u64::<LittleEndian>(32 + 32)?;
+    writer.write_u64::<LittleEndian>(32 + modulo_byte_count as u64)?;
 
     // header
     write_header(writer, header)?;
@@ -196,20 +196,25 @@ pub fn write_r1cs<T: Field, W: Write>(writer: &mut W, p: Prog<T>) -> Result<()>
 fn write_constraints<T: Field, W: Write>(
     writer: &mut W,
     constraints: Vec<Constraint<T>>,
+    modulo_byte_count: usize,
 ) -> Result<()> {
     for c in constraints {
-        write_lincomb(writer, c.0)?;
-        write_lincomb(writer, c.1)?;
-        write_lincomb(writer, c.2)?;
+        write_lincomb(writer, c.0, modulo_byte_count)?;
+        write_lincomb(writer, c.1, modulo_byte_count)?;
+        write_lincomb(writer, c.2, modulo_byte_count)?;
     }
     Ok(())
 }
 
-fn write_lincomb<T: Field, W: Write>(writer: &mut W, l: LinComb<T>) -> Result<()> {
+fn write_lincomb<T: Field, W: Write>(
+    writer: &mut W,
+    l: LinComb<T>,
+    modulo_byte_count: usize,
+) -> Result<()> {
     writer.write_u32::<LittleEndian>(l.len() as u32)?;
     for (var, coeff) in l {
         writer.write_u32::<LittleEndian>(var as u32)?;
-        let mut res = vec![0u8; 32];
+        let mut res = vec![0u8; modulo_byte_count];
         for (value, padded) in coeff.to_biguint().to_bytes_le().iter().zip(res.iter_mut()) {
             *padded = *value;
         }
-- 
2.43.0


From 820ba226b7df717de4523fdec51e66d1b26bffa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:34 +0000
Subject: [PATCH 21/59] fix: give every variable of a witness its wire in the
 circom r1cs

---
 zokrates_circom/src/r1cs.rs | 35 +++++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/zokrates_circom/src/r1cs.rs b/zokrates_circom/src/r1cs.rs
index 2cb6a6b..6e22a73 100644
--- a/zokrates_circom/src/r1cs.rs
+++ b/zokrates_circom/src/r1cs.rs
@@ -68,21 +68,28 @@ pub fn r1cs_program<T: Field>(prog: Prog<T>) -> (Vec<Variable>, usize, Vec<Const
     // build a set of all variables
     let mut ordered_variables_set = BTreeSet::default();
 
+    // a witness has a value for each variable, including those which do not appear in any constraint
+    for x in &prog.arguments {
+        ordered_variables_set.insert(&x.id);
+    }
+
     // first pass through statements to populate `variables`
-    for s in prog.statements.iter().filter_map(|s| match s {
-        Statement::Constraint(s) => Some(s),
-        Statement::Directive(..) => None,
-        Statement::Block(..) => unreachable!(),
-        Statement::Log(..) => None,
-    }) {
-        for (k, _) in &s.quad.left.value {
-            ordered_variables_set.insert(k);
-        }
-        for (k, _) in &s.quad.right.value {
-            ordered_variables_set.insert(k);
-        }
-        for (k, _) in &s.lin.value {
-            ordered_variables_set.insert(k);
+    for s in &prog.statements {
+        match s {
+            Statement::Constraint(s) => {
+                for (k, _) in &s.quad.left.value {
+                    ordered_variables_set.insert(k);
+                }
+                for (k, _) in &s.quad.right.value {
+                    ordered_variables_set.insert(k);
+                }
+                for (k, _) in &s.lin.value {
+                    ordered_variables_set.insert(k);
+                }
+            }
+            Statement::Directive(s) => ordered_variables_set.extend(&s.outputs),
+            Statement::Block(..) => unreachable!(),
+            Statement::Log(..) => {}
         }
     }
 
-- 
2.43.0


From 6f8c696c37df9bbbe090208e119134ed01acec6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:25 +0000
Subject: [PATCH 22/59] fix: do not count logged variables as constrained

---
 zokrates_ast/src/ir/check.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/zokrates_ast/src/ir/check.rs b/zokrates_ast/src/ir/check.rs
index e4c1652..051af9a 100644
--- a/zokrates_ast/src/ir/check.rs
+++ b/zokrates_ast/src/ir/check.rs
@@ -1,5 +1,6 @@
 use crate::ir::folder::Folder;
 use crate::ir::DirectiveStatement;
+use crate::ir::LogStatement;
 use crate::ir::Parameter;
 use crate::ir::ProgIterator;
 use crate::ir::Statement;
@@ -49,4 +50,8 @@ impl<'ast, T: Field> Folder<'ast, T> for UnconstrainedVariableDetector {
         self.variables.extend(d.outputs.iter());
         vec![Statement::Directive(d)]
     }
+    // logs do not constrain anything
+    fn fold_log_statement(&mut self, s: LogStatement<T>) -> Vec<Statement<'ast, T>> {
+        vec![Statement::Log(s)]
+    }
 }
-- 
2.43.0


From 3271038bd49d3bde41e0ff1e015ee32e3c96fafc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:55 +0000
Subject: [PATCH 23/59] fix: keep range checks of dynamic accesses in source
 order

The checks of an assignment with several dynamic indices were collected in a
hash set, so that compiling the same program twice gave different constraint
systems.
---
 zokrates_analysis/src/variable_write_remover.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/zokrates_analysis/src/variable_write_remover.rs b/zokrates_analysis/src/variable_write_remover.rs
index 8880fc2..53557de 100644
--- a/zokrates_analysis/src/variable_write_remover.rs
+++ b/zokrates_analysis/src/variable_write_remover.rs
@@ -4,7 +4,6 @@
 //! @author Thibaut Schaeffer <thibaut@schaeff.fr>
 //! @date 2018
 
-use std::collections::HashSet;
 use std::fmt;
 use zokrates_ast::common::{Span, WithSpan};
 use zokrates_ast::typed::result_folder::ResultFolder;
@@ -38,7 +37,7 @@ impl<'ast> VariableWriteRemover {
         base: TypedExpression<'ast, T>,
         indices: Vec<Access<'ast, T>>,
         new_expression: TypedExpression<'ast, T>,
-        statements: &mut HashSet<TypedStatement<'ast, T>>,
+        statements: &mut Vec<TypedStatement<'ast, T>>,
         span: Option<Span>,
     ) -> TypedExpression<'ast, T> {
         let mut indices = indices;
@@ -57,14 +56,19 @@ impl<'ast> VariableWriteRemover {
 
                     match head {
                         Access::Select(head) => {
-                            statements.insert(TypedStatement::assertion(
+                            // keep the checks in the order of the accesses so that compilation is deterministic
+                            let range_check = TypedStatement::assertion(
                                 BooleanExpression::uint_lt(
                                     head.clone(),
                                     UExpression::from(size).span(span),
                                 )
                                 .span(span),
                                 RuntimeError::SelectRangeCheck,
-                            ));
+                            );
+
+                            if !statements.contains(&range_check) {
+                                statements.push(range_check);
+                            }
 
                             ArrayExpression::value(
                                 (0..size)
@@ -647,7 +651,7 @@ impl<'ast, T: Field> ResultFolder<'ast, T> for VariableWriteRemover {
                         })
                         .collect::<Result<_, _>>()?;
 
-                    let mut range_checks = HashSet::new();
+                    let mut range_checks = vec![];
                     let e = Self::choose_many(base, indices, expr, &mut range_checks, span);
 
                     Ok(range_checks
-- 
2.43.0


From 5865de32ce4c3beac0f3398208e773cf620a6b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:18 +0000
Subject: [PATCH 24/59] fix: read decimal field elements exactly

A decimal not below the prime was silently reduced, and one with leading zeros
was refused, and then read as hexadecimal in ABI inputs.
---
 zokrates_field/src/lib.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/zokrates_field/src/lib.rs b/zokrates_field/src/lib.rs
index 3308f86..4bcd0e5 100644
--- a/zokrates_field/src/lib.rs
+++ b/zokrates_field/src/lib.rs
@@ -259,11 +259,7 @@ mod prime_field {
                     <Fr as PrimeField>::Params::MODULUS_BITS as usize
                 }
                 fn try_from_dec_str(s: &str) -> Result<Self, FieldParseError> {
-                    use std::str::FromStr;
-
-                    Ok(FieldPrime {
-                        v: Fr::from_str(s).map_err(|_| FieldParseError)?,
-                    })
+                    Self::try_from_str(s, 10)
                 }
                 fn try_from_str(s: &str, radix: u32) -> Result<Self, FieldParseError> {
                     let x = BigUint::parse_bytes(s.as_bytes(), radix).ok_or(FieldParseError)?;
-- 
2.43.0


From f69965d896b8723fdeb116f0bed4e5d2183f06b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:18 +0000
Subject: [PATCH 25/59] fix: decode arrays of elements without components

Decoding the outputs of a program returning, say, a `field[0][2]` panicked.
---
 zokrates_abi/src/lib.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/zokrates_abi/src/lib.rs b/zokrates_abi/src/lib.rs
index 2f92063..15f8d8e 100644
--- a/zokrates_abi/src/lib.rs
+++ b/zokrates_abi/src/lib.rs
@@ -170,11 +170,16 @@ impl<T: Field> Decode<T> for Value<T> {
                     unreachable!()
                 })
             }
-            ConcreteType::Array(array_type) => Value::Array(
-                raw.chunks(array_type.ty.get_primitive_count())
-                    .map(|c| Value::decode(c.to_vec(), *array_type.ty.clone()))
-                    .collect(),
-            ),
+            ConcreteType::Array(array_type) => {
+                let count = array_type.ty.get_primitive_count();
+
+                Value::Array(
+                    (0..*array_type.size as usize)
+                        .map(|i| &raw[i * count..(i + 1) * count])
+                        .map(|c| Value::decode(c.to_vec(), *array_type.ty.clone()))
+                        .collect(),
+                )
+            }
             ConcreteType::Struct(members) => Value::Struct(
                 members
                     .into_iter()
-- 
2.43.0


From 94ea6bb7e1b341efd9408fa592c393164aee994b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:18 +0000
Subject: [PATCH 26/59] fix: strip one hexadecimal prefix from ABI values

`0x0x12` was accepted as a number.
---
 zokrates_abi/src/lib.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/zokrates_abi/src/lib.rs b/zokrates_abi/src/lib.rs
index 15f8d8e..fe97f31 100644
--- a/zokrates_abi/src/lib.rs
+++ b/zokrates_abi/src/lib.rs
@@ -243,6 +243,10 @@ impl<T: Field> Values<T> {
     }
 }
 
+fn strip_hex_prefix(s: &str) -> &str {
+    s.strip_prefix("0x").unwrap_or(s)
+}
+
 pub fn parse_value<T: Field>(
     value: serde_json::Value,
     expected_type: ConcreteType,
@@ -250,32 +254,32 @@ pub fn parse_value<T: Field>(
     match (&expected_type, value) {
         (ConcreteType::FieldElement, serde_json::Value::String(s)) => {
             T::try_from_dec_str(s.as_str())
-                .or_else(|_| T::try_from_str(s.as_str().trim_start_matches("0x"), 16))
+                .or_else(|_| T::try_from_str(strip_hex_prefix(&s), 16))
                 .map(Value::Field)
                 .map_err(|_| Error::Type(format!("Could not parse `{}` to field type", s)))
         }
         (ConcreteType::Uint(UBitwidth::B8), serde_json::Value::String(s)) => s
             .as_str()
             .parse::<u8>()
-            .or_else(|_| u8::from_str_radix(s.as_str().trim_start_matches("0x"), 16))
+            .or_else(|_| u8::from_str_radix(strip_hex_prefix(&s), 16))
             .map(Value::U8)
             .map_err(|_| Error::Type(format!("Could not parse `{}` to u8 type", s))),
         (ConcreteType::Uint(UBitwidth::B16), serde_json::Value::String(s)) => s
             .as_str()
             .parse::<u16>()
-            .or_else(|_| u16::from_str_radix(s.as_str().trim_start_matches("0x"), 16))
+            .or_else(|_| u16::from_str_radix(strip_hex_prefix(&s), 16))
             .map(Value::U16)
             .map_err(|_| Error::Type(format!("Could not parse `{}` to u16 type", s))),
         (ConcreteType::Uint(UBitwidth::B32), serde_json::Value::String(s)) => s
             .as_str()
             .parse::<u32>()
-            .or_else(|_| u32::from_str_radix(s.as_str().trim_start_matches("0x"), 16))
+            .or_else(|_| u32::from_str_radix(strip_hex_prefix(&s), 16))
             .map(Value::U32)
             .map_err(|_| Error::Type(format!("Could not parse `{}` to u32 type", s))),
         (ConcreteType::Uint(UBitwidth::B64), serde_json::Value::String(s)) => s
             .as_str()
             .parse::<u64>()
-            .or_else(|_| u64::from_str_radix(s.as_str().trim_start_matches("0x"), 16))
+            .or_else(|_| u64::from_str_radix(strip_hex_prefix(&s), 16))
             .map(Value::U64)
             .map_err(|_| Error::Type(format!("Could not parse `{}` to u64 type", s))),
         (ConcreteType::Boolean, serde_json::Value::Bool(b)) => Ok(Value::Boolean(b)),
-- 
2.43.0


From a2a9032e5bb0efa74893f46d0873a434b727418f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:21 +0000
Subject: [PATCH 27/59] fix: sha256Padded added a block when the padded length
 is a multiple of 512

---
 zokrates_stdlib/stdlib/hashes/sha256/sha256Padded.zok | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/zokrates_stdlib/stdlib/hashes/sha256/sha256Padded.zok b/zokrates_stdlib/stdlib/hashes/sha256/sha256Padded.zok
index 60dea98..0ab2f3a 100644
--- a/zokrates_stdlib/stdlib/hashes/sha256/sha256Padded.zok
+++ b/zokrates_stdlib/stdlib/hashes/sha256/sha256Padded.zok
@@ -6,10 +6,9 @@ import "utils/casts/u32_from_bits";
 // A padding function that takes a bool[L] array as input and pads it to 512-bit blocks
 def pad<L, M>(bool[L] m) -> u32[M][16] {
     u32 length = L + 64 + 1;
-    assert(length / 512 + 1 == M);
+    assert((length + 511) / 512 == M);
 
-    u32 r = length % 512;
-    u32 k = 512 - r;
+    u32 k = M * 512 - length;
     bool[M * 512] result_in_bits = [...m, true, ...[false; k + 32], ...u32_to_bits(L)];
     u32[M][16] mut result = [[0; 16]; M];
 
@@ -26,7 +25,7 @@ def pad<L, M>(bool[L] m) -> u32[M][16] {
 // A function that takes a bool[N] array as input, pads it,
 // and returns the sha256 output as a u32[8]
 def sha256Padded<N>(bool[N] input) -> u32[8] {
-    u32 block_count = (N + 64 + 1) / 512 + 1;
+    u32 block_count = (N + 64 + 1 + 511) / 512;
     u32[block_count][16] padded = pad(input);
     return sha256(padded);
 }
-- 
2.43.0


From 1b946b13751fe0e739f9c61669c3d2a87ba987a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:21 +0000
Subject: [PATCH 28/59] fix: edwardsCompress decomposed the coordinates of the
 point non-uniquely

---
 zokrates_stdlib/stdlib/ecc/edwardsCompress.zok | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zokrates_stdlib/stdlib/ecc/edwardsCompress.zok b/zokrates_stdlib/stdlib/ecc/edwardsCompress.zok
index 1959f57..d2eaeef 100644
--- a/zokrates_stdlib/stdlib/ecc/edwardsCompress.zok
+++ b/zokrates_stdlib/stdlib/ecc/edwardsCompress.zok
@@ -1,4 +1,4 @@
-import "utils/pack/bool/nonStrictUnpack256" as unpack256;
+import "utils/pack/bool/unpack256";
 
 // Compress JubJub Curve Point to 256bit array using big endianness bit order
 // Python reference code from pycrypto:
-- 
2.43.0


From 406d083b5a286ad2d02aea3ca56e5193c6d906ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:06 +0000
Subject: [PATCH 29/59] fix: unpacking a constant to more bits than the field
 has gave wrong bits

---
 zokrates_analysis/src/propagation.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/zokrates_analysis/src/propagation.rs b/zokrates_analysis/src/propagation.rs
index 45a66cf..c9acb30 100644
--- a/zokrates_analysis/src/propagation.rs
+++ b/zokrates_analysis/src/propagation.rs
@@ -503,7 +503,10 @@ impl<'ast, T: Field> ResultFolder<'ast, T> for Propagator<'ast, T> {
                                         let mut res = vec![];
 
                                         for i in (0..bit_width as usize).rev() {
-                                            if T::from(2).pow(i) <= acc {
+                                            // larger powers of two do not fit the field
+                                            if i < T::get_required_bits()
+                                                && T::from(2).pow(i) <= acc
+                                            {
                                                 acc = acc - T::from(2).pow(i);
                                                 res.push(true);
                                             } else {
-- 
2.43.0


From 441eaac5bf48db007f7620d77e334c263bba37e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:13 +0000
Subject: [PATCH 30/59] fix: commands reported success although their output
 was not completely written

Buffered writers were dropped without being flushed, so an error while the last
buffer was written was ignored, and three commands used write instead of
write_all. Output files that cannot be created are reported as errors.
---
 zokrates_cli/src/ops/compile.rs          | 18 +++++++++++++++---
 zokrates_cli/src/ops/compute_witness.rs  | 13 ++++++++-----
 zokrates_cli/src/ops/export_verifier.rs  |  1 +
 zokrates_cli/src/ops/generate_proof.rs   |  5 +++--
 zokrates_cli/src/ops/generate_smtlib2.rs |  5 +++--
 zokrates_cli/src/ops/inspect.rs          |  3 ++-
 zokrates_cli/src/ops/nova/compress.rs    |  4 ++--
 zokrates_cli/src/ops/nova/prove.rs       |  2 +-
 8 files changed, 35 insertions(+), 16 deletions(-)

diff --git a/zokrates_cli/src/ops/compile.rs b/zokrates_cli/src/ops/compile.rs
index 449f7ac..5991cd1 100644
--- a/zokrates_cli/src/ops/compile.rs
+++ b/zokrates_cli/src/ops/compile.rs
@@ -3,7 +3,7 @@ use clap::{App, Arg, ArgMatches, SubCommand};
 use serde_json::to_writer_pretty;
 use std::convert::TryFrom;
 use std::fs::File;
-use std::io::{BufReader, BufWriter, Read};
+use std::io::{BufReader, BufWriter, Read, Write};
 use std::path::{Path, PathBuf};
 use typed_arena::Arena;
 use zokrates_circom::write_r1cs;
@@ -171,9 +171,18 @@ fn cli_compile<T: Field>(sub_matches: &ArgMatches) -> Result<(), String> {
         .module_map
         .remap_prefix(Path::new(stdlib_path), Path::new("STDLIB"));
 
-    write_r1cs(&mut r1cs_writer, program_flattened.clone()).unwrap();
+    write_r1cs(&mut r1cs_writer, program_flattened.clone())
+        .and_then(|_| r1cs_writer.flush())
+        .map_err(|why| format!("Could not write {}: {}", r1cs_output_path.display(), why))?;
 
-    match program_flattened.serialize(&mut bin_writer) {
+    let res = program_flattened
+        .serialize(&mut bin_writer)
+        .and_then(|constraint_count| {
+            bin_writer.flush()?;
+            Ok(constraint_count)
+        });
+
+    match res {
         Ok(constraint_count) => {
             // serialize ABI spec and write to JSON file
             log::debug!("Serialize ABI");
@@ -183,6 +192,9 @@ fn cli_compile<T: Field>(sub_matches: &ArgMatches) -> Result<(), String> {
             let mut writer = BufWriter::new(abi_spec_file);
             to_writer_pretty(&mut writer, &abi)
                 .map_err(|_| "Unable to write data to file.".to_string())?;
+            writer
+                .flush()
+                .map_err(|_| "Unable to write data to file.".to_string())?;
 
             println!("Compiled code written to '{}'", bin_output_path.display());
 
diff --git a/zokrates_cli/src/ops/compute_witness.rs b/zokrates_cli/src/ops/compute_witness.rs
index 9b05237..c5a3b0d 100644
--- a/zokrates_cli/src/ops/compute_witness.rs
+++ b/zokrates_cli/src/ops/compute_witness.rs
@@ -2,7 +2,7 @@ use crate::cli_constants;
 use clap::{App, Arg, ArgMatches, SubCommand};
 use serde_json::from_reader;
 use std::fs::File;
-use std::io::{stdin, BufReader, BufWriter, Read};
+use std::io::{stdin, BufReader, BufWriter, Read, Write};
 use std::path::Path;
 use zokrates_abi::Encode;
 use zokrates_ast::ir::{self, ProgEnum};
@@ -200,10 +200,11 @@ fn cli_compute<'a, T: Field, I: Iterator<Item = ir::Statement<'a, T>>>(
     let output_file = File::create(output_path)
         .map_err(|why| format!("Could not create {}: {}", output_path.display(), why))?;
 
-    let writer = BufWriter::new(output_file);
+    let mut writer = BufWriter::new(output_file);
 
     witness
-        .write(writer)
+        .write(&mut writer)
+        .and_then(|_| writer.flush())
         .map_err(|why| format!("Could not save witness: {:?}", why))?;
 
     // write witness in the json format
@@ -212,10 +213,11 @@ fn cli_compute<'a, T: Field, I: Iterator<Item = ir::Statement<'a, T>>>(
         let json_file = File::create(&json_path)
             .map_err(|why| format!("Could not create {}: {}", json_path.display(), why))?;
 
-        let writer = BufWriter::new(json_file);
+        let mut writer = BufWriter::new(json_file);
 
         witness
-            .write_json(writer)
+            .write_json(&mut writer)
+            .and_then(|_| writer.flush())
             .map_err(|why| format!("Could not save {}: {:?}", json_path.display(), why))?;
     }
 
@@ -227,6 +229,7 @@ fn cli_compute<'a, T: Field, I: Iterator<Item = ir::Statement<'a, T>>>(
     let mut writer = BufWriter::new(wtns_file);
 
     write_witness(&mut writer, witness, public_inputs)
+        .and_then(|_| writer.flush())
         .map_err(|why| format!("Could not save circom witness: {:?}", why))?;
 
     println!("Witness file written to '{}'", output_path.display());
diff --git a/zokrates_cli/src/ops/export_verifier.rs b/zokrates_cli/src/ops/export_verifier.rs
index f343a73..b188e0e 100644
--- a/zokrates_cli/src/ops/export_verifier.rs
+++ b/zokrates_cli/src/ops/export_verifier.rs
@@ -91,6 +91,7 @@ fn cli_export_verifier<T: SolidityCompatibleField, S: SolidityCompatibleScheme<T
 
     writer
         .write_all(verifier.as_bytes())
+        .and_then(|_| writer.flush())
         .map_err(|_| "Failed writing output to file".to_string())?;
 
     println!("Verifier exported to '{}'", output_path.display());
diff --git a/zokrates_cli/src/ops/generate_proof.rs b/zokrates_cli/src/ops/generate_proof.rs
index 4ec1c8b..044da66 100644
--- a/zokrates_cli/src/ops/generate_proof.rs
+++ b/zokrates_cli/src/ops/generate_proof.rs
@@ -185,12 +185,13 @@ fn cli_generate_proof<
         .unwrap_or_else(StdRng::from_entropy);
 
     let proof = B::generate_proof(program, witness, pk_reader, &mut rng);
-    let mut proof_file = File::create(proof_path).unwrap();
+    let mut proof_file = File::create(proof_path)
+        .map_err(|why| format!("Could not create {}: {}", proof_path.display(), why))?;
 
     let proof =
         serde_json::to_string_pretty(&TaggedProof::<T, S>::new(proof.proof, proof.inputs)).unwrap();
     proof_file
-        .write(proof.as_bytes())
+        .write_all(proof.as_bytes())
         .map_err(|why| format!("Could not write to {}: {}", proof_path.display(), why))?;
 
     if sub_matches.is_present("verbose") {
diff --git a/zokrates_cli/src/ops/generate_smtlib2.rs b/zokrates_cli/src/ops/generate_smtlib2.rs
index f7daf35..845e287 100644
--- a/zokrates_cli/src/ops/generate_smtlib2.rs
+++ b/zokrates_cli/src/ops/generate_smtlib2.rs
@@ -56,12 +56,13 @@ fn cli_smtlib2<'a, T: Field, I: Iterator<Item = ir::Statement<'a, T>>>(
     println!("Generating SMTLib2...");
 
     let output_path = Path::new(sub_matches.value_of("output").unwrap());
-    let mut output_file = File::create(output_path).unwrap();
+    let mut output_file = File::create(output_path)
+        .map_err(|why| format!("Could not create {}: {}", output_path.display(), why))?;
 
     let ir_prog = ir_prog.collect();
 
     output_file
-        .write(format!("{}", SMTLib2Display(&ir_prog)).as_bytes())
+        .write_all(format!("{}", SMTLib2Display(&ir_prog)).as_bytes())
         .map_err(|why| format!("Could not save smtlib2: {:?}", why))?;
 
     println!("SMTLib2 file written to '{}'", output_path.display());
diff --git a/zokrates_cli/src/ops/inspect.rs b/zokrates_cli/src/ops/inspect.rs
index e4bd7f0..9610595 100644
--- a/zokrates_cli/src/ops/inspect.rs
+++ b/zokrates_cli/src/ops/inspect.rs
@@ -61,7 +61,8 @@ fn cli_inspect<'a, T: Field, I: Iterator<Item = ir::Statement<'a, T>>>(
         let output_path =
             PathBuf::from(sub_matches.value_of("input").unwrap()).with_extension("ztf");
 
-        let output_file = File::create(&output_path).unwrap();
+        let output_file = File::create(&output_path)
+            .map_err(|why| format!("Could not create `{}`: {}", output_path.display(), why))?;
         let mut w = BufWriter::new(output_file);
 
         writeln!(w, "# {}", curve)
diff --git a/zokrates_cli/src/ops/nova/compress.rs b/zokrates_cli/src/ops/nova/compress.rs
index 1adc722..34e9b9d 100644
--- a/zokrates_cli/src/ops/nova/compress.rs
+++ b/zokrates_cli/src/ops/nova/compress.rs
@@ -86,7 +86,7 @@ fn cli_nova_compress<T: NovaField>(
         .map_err(|why| format!("Could not create {}: {}", proof_path.display(), why))?;
 
     proof_file
-        .write(proof_json.as_bytes())
+        .write_all(proof_json.as_bytes())
         .map_err(|why| format!("Could not write to {}: {}", proof_path.display(), why))?;
 
     println!("Compressed SNARK written to '{}'", proof_path.display());
@@ -102,7 +102,7 @@ fn cli_nova_compress<T: NovaField>(
     })?;
 
     verification_key_file
-        .write(verification_key_json.as_bytes())
+        .write_all(verification_key_json.as_bytes())
         .map_err(|why| {
             format!(
                 "Could not write to {}: {}",
diff --git a/zokrates_cli/src/ops/nova/prove.rs b/zokrates_cli/src/ops/nova/prove.rs
index 2ab33d6..80d3298 100644
--- a/zokrates_cli/src/ops/nova/prove.rs
+++ b/zokrates_cli/src/ops/nova/prove.rs
@@ -179,7 +179,7 @@ fn cli_nova_prove_step<'ast, T: NovaField, I: Iterator<Item = ir::Statement<'ast
     let proof_json = serde_json::to_string_pretty(&proof).unwrap();
 
     proof_file
-        .write(proof_json.as_bytes())
+        .write_all(proof_json.as_bytes())
         .map_err(|why| format!("Could not write to {}: {}", proof_path.display(), why))?;
 
     match proof {
-- 
2.43.0


From eed30961f20f90ab0f3fc841534873dc63e44f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:13 +0000
Subject: [PATCH 31/59] fix: compile and check crashed on sources that cannot
 be read

A source which is a directory or not valid UTF-8, and an error in a file which
cannot be canonicalized, made the command panic.
---
 zokrates_cli/src/ops/check.rs   |  9 +++++++--
 zokrates_cli/src/ops/compile.rs | 11 ++++++++---
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/zokrates_cli/src/ops/check.rs b/zokrates_cli/src/ops/check.rs
index 1172f03..11af350 100644
--- a/zokrates_cli/src/ops/check.rs
+++ b/zokrates_cli/src/ops/check.rs
@@ -67,10 +67,15 @@ fn cli_check<T: Field>(sub_matches: &ArgMatches) -> Result<(), String> {
 
     let mut reader = BufReader::new(file);
     let mut source = String::new();
-    reader.read_to_string(&mut source).unwrap();
+    reader
+        .read_to_string(&mut source)
+        .map_err(|why| format!("Could not read {}: {}", path.display(), why))?;
 
     let fmt_error = |e: &CompileError| {
-        let file = e.file().canonicalize().unwrap();
+        let file = e
+            .file()
+            .canonicalize()
+            .unwrap_or_else(|_| e.file().to_path_buf());
         format!(
             "{}:{}",
             file.strip_prefix(std::env::current_dir().unwrap())
diff --git a/zokrates_cli/src/ops/compile.rs b/zokrates_cli/src/ops/compile.rs
index 5991cd1..1281bcf 100644
--- a/zokrates_cli/src/ops/compile.rs
+++ b/zokrates_cli/src/ops/compile.rs
@@ -111,10 +111,15 @@ fn cli_compile<T: Field>(sub_matches: &ArgMatches) -> Result<(), String> {
 
     let mut reader = BufReader::new(file);
     let mut source = String::new();
-    reader.read_to_string(&mut source).unwrap();
+    reader
+        .read_to_string(&mut source)
+        .map_err(|why| format!("Could not read {}: {}", path.display(), why))?;
 
     let fmt_error = |e: &CompileError| {
-        let file = e.file().canonicalize().unwrap();
+        let file = e
+            .file()
+            .canonicalize()
+            .unwrap_or_else(|_| e.file().to_path_buf());
         format!(
             "{}:{}",
             file.strip_prefix(std::env::current_dir().unwrap())
@@ -204,7 +209,7 @@ fn cli_compile<T: Field>(sub_matches: &ArgMatches) -> Result<(), String> {
         }
         Err(e) => {
             // something wrong happened, clean up
-            std::fs::remove_file(bin_output_path).unwrap();
+            let _ = std::fs::remove_file(bin_output_path);
             Err(e.to_string())
         }
     }
-- 
2.43.0


From 0c1ddcea9d439eb18cc70589a5e8f89ae78d2adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:13 +0000
Subject: [PATCH 32/59] fix: arguments read from stdin on several lines were
 joined together

Line breaks were removed before the input was split, so that 1 and 2 on two lines
were read as the single argument 12.
---
 zokrates_cli/src/ops/compute_witness.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/zokrates_cli/src/ops/compute_witness.rs b/zokrates_cli/src/ops/compute_witness.rs
index c5a3b0d..c1c7575 100644
--- a/zokrates_cli/src/ops/compute_witness.rs
+++ b/zokrates_cli/src/ops/compute_witness.rs
@@ -157,14 +157,11 @@ fn cli_compute<'a, T: Field, I: Iterator<Item = ir::Statement<'a, T>>>(
                 false => match ir_prog.arguments.len() {
                     0 => Ok(Inputs::Raw(vec![])),
                     _ => match stdin.read_to_string(&mut input) {
-                        Ok(_) => {
-                            input.retain(|x| x != '\n');
-                            input
-                                .split(' ')
-                                .map(|x| T::try_from_dec_str(x).map_err(|_| x.to_string()))
-                                .collect::<Result<Vec<_>, _>>()
-                                .map(Inputs::Raw)
-                        }
+                        Ok(_) => input
+                            .split_whitespace()
+                            .map(|x| T::try_from_dec_str(x).map_err(|_| x.to_string()))
+                            .collect::<Result<Vec<_>, _>>()
+                            .map(Inputs::Raw),
                         Err(_) => Err(String::from("???")),
                     },
                 },
-- 
2.43.0


From 99e9a4c7efc6aec637bcb3e812a571e2a7b8ad51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:13 +0000
Subject: [PATCH 33/59] fix: print-proof crashed on proofs with an unknown
 curve or scheme

---
 zokrates_cli/src/ops/print_proof.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zokrates_cli/src/ops/print_proof.rs b/zokrates_cli/src/ops/print_proof.rs
index cf0d25a..6e36bc9 100644
--- a/zokrates_cli/src/ops/print_proof.rs
+++ b/zokrates_cli/src/ops/print_proof.rs
@@ -59,7 +59,7 @@ pub fn exec(sub_matches: &ArgMatches) -> Result<(), String> {
         .ok_or_else(|| "`scheme` should be a string".to_string())?;
 
     let parameters: (CurveParameter, SchemeParameter) =
-        (curve.try_into().unwrap(), scheme.try_into().unwrap());
+        (curve.try_into()?, scheme.try_into()?);
 
     match parameters {
         (CurveParameter::Bn128, SchemeParameter::G16) => {
-- 
2.43.0


From 2f74430740a18caaffab8f6c2c23b99e1d304fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:55 +0000
Subject: [PATCH 34/59] fix: nova commands crashed on missing or invalid files
 and on other signatures

prove, compress and verify now report files that cannot be opened or parsed, and
programs which do not take a state and a step input, as errors.
---
 zokrates_cli/src/ops/nova/compress.rs |  3 +-
 zokrates_cli/src/ops/nova/prove.rs    | 41 +++++++++++++++++++--------
 zokrates_cli/src/ops/nova/verify.rs   | 27 +++++++++++++-----
 3 files changed, 51 insertions(+), 20 deletions(-)

diff --git a/zokrates_cli/src/ops/nova/compress.rs b/zokrates_cli/src/ops/nova/compress.rs
index 34e9b9d..ebf948c 100644
--- a/zokrates_cli/src/ops/nova/compress.rs
+++ b/zokrates_cli/src/ops/nova/compress.rs
@@ -58,7 +58,8 @@ pub fn exec(sub_matches: &ArgMatches) -> Result<(), String> {
 
     let reader = BufReader::new(file);
     let instance: RecursiveSNARKWithStepCount<PallasField> =
-        serde_json::from_reader(reader).unwrap();
+        serde_json::from_reader(reader)
+            .map_err(|why| format!("Could not deserialize {}: {}", path.display(), why))?;
 
     cli_nova_compress::<PallasField>(instance, sub_matches)
 }
diff --git a/zokrates_cli/src/ops/nova/prove.rs b/zokrates_cli/src/ops/nova/prove.rs
index 80d3298..7f73fb5 100644
--- a/zokrates_cli/src/ops/nova/prove.rs
+++ b/zokrates_cli/src/ops/nova/prove.rs
@@ -112,22 +112,34 @@ fn cli_nova_prove_step<'ast, T: NovaField, I: Iterator<Item = ir::Statement<'ast
     let abi: Abi = from_reader(&mut reader).map_err(|why| why.to_string())?;
     let signature = abi.signature();
 
-    let init_type = signature.inputs[0].clone();
-    let step_type = signature.inputs[1].clone();
+    let (init_type, step_type) = match &signature.inputs[..] {
+        [init_type, step_type] => (init_type.clone(), step_type.clone()),
+        inputs => {
+            return Err(format!(
+                "Expected a step program with two inputs, found {}",
+                inputs.len()
+            ))
+        }
+    };
 
     let init = {
         let path = Path::new(sub_matches.value_of("init").unwrap());
-        let file = File::open(path).unwrap();
+        let file = File::open(path)
+            .map_err(|why| format!("Could not open {}: {}", path.display(), why))?;
         let reader = BufReader::new(file);
 
-        parse_value(serde_json::from_reader(reader).unwrap(), init_type)
-            .unwrap()
+        let value = serde_json::from_reader(reader)
+            .map_err(|why| format!("Could not deserialize {}: {}", path.display(), why))?;
+
+        parse_value(value, init_type)
+            .map_err(|why| format!("Could not parse {}: {}", path.display(), why))?
             .encode()
     };
 
     let steps: Vec<_> = {
         let path = Path::new(sub_matches.value_of("steps").unwrap());
-        let json_str = std::fs::read_to_string(path).unwrap();
+        let json_str = std::fs::read_to_string(path)
+            .map_err(|why| format!("Could not read {}: {}", path.display(), why))?;
 
         {
             let values: Value = serde_json::from_str(&json_str).map_err(|e| e.to_string())?;
@@ -142,18 +154,23 @@ fn cli_nova_prove_step<'ast, T: NovaField, I: Iterator<Item = ir::Statement<'ast
                 )),
                 _ => Err(format!("Expected an array of values, found `{}`", values)),
             }
-        }
-        .unwrap()
+        }?
         .0
         .into_iter()
         .map(|e| e.encode())
         .collect()
     };
 
-    let from = sub_matches.is_present("continue").then(|| {
-        let path = Path::new(sub_matches.value_of("instance-path").unwrap());
-        serde_json::from_reader(BufReader::new(File::open(path).unwrap())).unwrap()
-    });
+    let from = sub_matches
+        .is_present("continue")
+        .then(|| {
+            let path = Path::new(sub_matches.value_of("instance-path").unwrap());
+            let file = File::open(path)
+                .map_err(|why| format!("Could not open {}: {}", path.display(), why))?;
+            serde_json::from_reader(BufReader::new(file))
+                .map_err(|why| format!("Could not deserialize {}: {}", path.display(), why))
+        })
+        .transpose()?;
 
     println!("Reading parameters...");
 
diff --git a/zokrates_cli/src/ops/nova/verify.rs b/zokrates_cli/src/ops/nova/verify.rs
index 9a6452b..cbbd2ec 100644
--- a/zokrates_cli/src/ops/nova/verify.rs
+++ b/zokrates_cli/src/ops/nova/verify.rs
@@ -78,8 +78,10 @@ pub fn exec(sub_matches: &ArgMatches) -> Result<(), String> {
 
     let verification_key_reader = BufReader::new(verification_key_file);
 
-    let proof: CompressedSNARK<PallasField> = serde_json::from_reader(proof_reader).unwrap();
-    let vk: VerifierKey<PallasField> = serde_json::from_reader(verification_key_reader).unwrap();
+    let proof: CompressedSNARK<PallasField> = serde_json::from_reader(proof_reader)
+        .map_err(|why| format!("Could not deserialize {}: {}", proof_path, why))?;
+    let vk: VerifierKey<PallasField> = serde_json::from_reader(verification_key_reader)
+        .map_err(|why| format!("Could not deserialize {}: {}", verification_key_path, why))?;
 
     cli_nova_verify(proof, vk, sub_matches)
 }
@@ -98,21 +100,32 @@ fn cli_nova_verify<'ast, T: NovaField>(
     let abi: Abi = from_reader(&mut reader).map_err(|why| why.to_string())?;
     let signature = abi.signature();
 
-    let init_type = signature.inputs[0].clone();
+    let init_type = signature
+        .inputs
+        .first()
+        .cloned()
+        .ok_or_else(|| "Expected a step program with two inputs".to_string())?;
 
     let init = {
         let path = Path::new(sub_matches.value_of("init").unwrap());
-        let file = File::open(path).unwrap();
+        let file = File::open(path)
+            .map_err(|why| format!("Could not open {}: {}", path.display(), why))?;
         let reader = BufReader::new(file);
 
-        parse_value(serde_json::from_reader(reader).unwrap(), init_type)
-            .unwrap()
+        let value = serde_json::from_reader(reader)
+            .map_err(|why| format!("Could not deserialize {}: {}", path.display(), why))?;
+
+        parse_value(value, init_type)
+            .map_err(|why| format!("Could not parse {}: {}", path.display(), why))?
             .encode()
     };
 
     let instance_path = Path::new(sub_matches.value_of("instance-path").unwrap());
+    let instance_file = File::open(instance_path)
+        .map_err(|why| format!("Could not open {}: {}", instance_path.display(), why))?;
     let instance: RecursiveSNARKWithStepCount<'ast, T> =
-        serde_json::from_reader(BufReader::new(File::open(instance_path).unwrap())).unwrap();
+        serde_json::from_reader(BufReader::new(instance_file))
+            .map_err(|why| format!("Could not deserialize {}: {}", instance_path.display(), why))?;
     let steps = instance.steps;
 
     if nova::verify_compressed(&proof, &vk, init, steps) {
-- 
2.43.0


From 4d6c695a77f9df1957dc761241151a1146b4040e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:17 +0000
Subject: [PATCH 35/59] fix: reading a damaged program file could panic instead
 of returning an error

---
 zokrates_ast/src/ir/serialize.rs | 48 +++++++++++++++++---------------
 1 file changed, 26 insertions(+), 22 deletions(-)

diff --git a/zokrates_ast/src/ir/serialize.rs b/zokrates_ast/src/ir/serialize.rs
index 872eb43..fc76d3b 100644
--- a/zokrates_ast/src/ir/serialize.rs
+++ b/zokrates_ast/src/ir/serialize.rs
@@ -334,44 +334,48 @@ impl<'de, R: Read + Seek>
     fn read<T: Field>(
         mut r: R,
         header: &ProgHeader,
-    ) -> ProgIterator<
-        'de,
-        T,
-        UnwrappedStreamDeserializer<'de, serde_cbor::de::IoRead<Take<R>>, Statement<'de, T>>,
+    ) -> Result<
+        ProgIterator<
+            'de,
+            T,
+            UnwrappedStreamDeserializer<'de, serde_cbor::de::IoRead<Take<R>>, Statement<'de, T>>,
+        >,
+        String,
     > {
         let parameters = {
             let section = &header.sections[0];
-            r.seek(std::io::SeekFrom::Start(section.offset)).unwrap();
+            r.seek(std::io::SeekFrom::Start(section.offset))
+                .map_err(|_| String::from("Cannot read parameters"))?;
 
             let mut p = serde_cbor::Deserializer::from_reader(r.by_ref());
             Vec::deserialize(&mut p)
-                .map_err(|_| String::from("Cannot read parameters"))
-                .unwrap()
+                .map_err(|_| String::from("Cannot read parameters"))?
         };
 
         let solvers = {
             let section = &header.sections[2];
-            r.seek(std::io::SeekFrom::Start(section.offset)).unwrap();
+            r.seek(std::io::SeekFrom::Start(section.offset))
+                .map_err(|_| String::from("Cannot read solvers"))?;
 
             let mut p = serde_cbor::Deserializer::from_reader(r.by_ref());
             Vec::deserialize(&mut p)
-                .map_err(|_| String::from("Cannot read solvers"))
-                .unwrap()
+                .map_err(|_| String::from("Cannot read solvers"))?
         };
 
         let module_map = {
             let section = &header.sections[3];
-            r.seek(std::io::SeekFrom::Start(section.offset)).unwrap();
+            r.seek(std::io::SeekFrom::Start(section.offset))
+                .map_err(|_| String::from("Cannot read module map"))?;
 
             let mut p = serde_cbor::Deserializer::from_reader(r.by_ref());
             ModuleMap::deserialize(&mut p)
-                .map_err(|_| String::from("Cannot read module map"))
-                .unwrap()
+                .map_err(|_| String::from("Cannot read module map"))?
         };
 
         let statements_deserializer = {
             let section = &header.sections[1];
-            r.seek(std::io::SeekFrom::Start(section.offset)).unwrap();
+            r.seek(std::io::SeekFrom::Start(section.offset))
+                .map_err(|_| String::from("Cannot read statements"))?;
 
             let p = serde_cbor::Deserializer::from_reader(r.take(section.length));
             let s = p.into_iter::<Statement<T>>();
@@ -379,13 +383,13 @@ impl<'de, R: Read + Seek>
             UnwrappedStreamDeserializer { s }
         };
 
-        ProgIterator::new(
+        Ok(ProgIterator::new(
             parameters,
             statements_deserializer,
             header.return_count as usize,
             module_map,
             solvers,
-        )
+        ))
     }
 
     pub fn deserialize(mut r: R) -> Result<Self, String> {
@@ -403,15 +407,15 @@ impl<'de, R: Read + Seek>
 
         match header.curve_id {
             m if m == Bls12_381Field::id() => {
-                Ok(ProgEnum::Bls12_381Program(Self::read(r, &header)))
+                Ok(ProgEnum::Bls12_381Program(Self::read(r, &header)?))
             }
-            m if m == Bn128Field::id() => Ok(ProgEnum::Bn128Program(Self::read(r, &header))),
+            m if m == Bn128Field::id() => Ok(ProgEnum::Bn128Program(Self::read(r, &header)?)),
             m if m == Bls12_377Field::id() => {
-                Ok(ProgEnum::Bls12_377Program(Self::read(r, &header)))
+                Ok(ProgEnum::Bls12_377Program(Self::read(r, &header)?))
             }
-            m if m == Bw6_761Field::id() => Ok(ProgEnum::Bw6_761Program(Self::read(r, &header))),
-            m if m == PallasField::id() => Ok(ProgEnum::PallasProgram(Self::read(r, &header))),
-            m if m == VestaField::id() => Ok(ProgEnum::VestaProgram(Self::read(r, &header))),
+            m if m == Bw6_761Field::id() => Ok(ProgEnum::Bw6_761Program(Self::read(r, &header)?)),
+            m if m == PallasField::id() => Ok(ProgEnum::PallasProgram(Self::read(r, &header)?)),
+            m if m == VestaField::id() => Ok(ProgEnum::VestaProgram(Self::read(r, &header)?)),
             _ => Err(String::from("Unknown curve identifier")),
         }
     }
-- 
2.43.0


From 491756f5c6608af5e36397b8bb50ab226f005a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:08 +0000
Subject: [PATCH 36/59] fix: logging a product crashed the compiler

The expressions of a log statement have to be linear, but products were not
defined before being logged.
---
 zokrates_codegen/src/lib.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/zokrates_codegen/src/lib.rs b/zokrates_codegen/src/lib.rs
index a589a56..7bebdca 100644
--- a/zokrates_codegen/src/lib.rs
+++ b/zokrates_codegen/src/lib.rs
@@ -2793,8 +2793,10 @@ impl<'ast, T: Field> Flattener<'ast, T> {
                             t,
                             e.into_iter()
                                 .map(|e| {
-                                    self.flatten_expression(statements_flattened, e)
-                                        .get_field_unchecked()
+                                    let e = self
+                                        .flatten_expression(statements_flattened, e)
+                                        .get_field_unchecked();
+                                    self.identify_expression(e, statements_flattened)
                                 })
                                 .collect(),
                         )
-- 
2.43.0


From c91e43d07ab85c88959ca974196763707c008a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:13 +0000
Subject: [PATCH 37/59] fix: cyclic imports overflowed the stack

---
 zokrates_core/src/compile.rs | 23 +++++++++++++++++++----
 zokrates_core/src/imports.rs | 19 ++++++++++++++++++-
 2 files changed, 37 insertions(+), 5 deletions(-)

diff --git a/zokrates_core/src/compile.rs b/zokrates_core/src/compile.rs
index 3f9e327..8ddd201 100644
--- a/zokrates_core/src/compile.rs
+++ b/zokrates_core/src/compile.rs
@@ -251,7 +251,14 @@ pub fn parse_program<'ast, T: Field, E: Into<imports::Error>>(
 ) -> Result<Program<'ast>, CompileErrors> {
     let mut modules = HashMap::new();
 
-    let main = parse_module::<T, E>(source, location.clone(), resolver, &mut modules, arena)?;
+    let main = parse_module::<T, E>(
+        source,
+        location.clone(),
+        resolver,
+        &mut modules,
+        &mut vec![],
+        arena,
+    )?;
 
     modules.insert(location.clone(), main);
 
@@ -266,6 +273,7 @@ pub fn parse_module<'ast, T: Field, E: Into<imports::Error>>(
     location: FilePath,
     resolver: Option<&dyn Resolver<E>>,
     modules: &mut HashMap<OwnedModuleId, Module<'ast>>,
+    ancestors: &mut Vec<OwnedModuleId>,
     arena: &'ast Arena<String>,
 ) -> Result<Module<'ast>, CompileErrors> {
     log::debug!("Generate pest AST for {}", location.display());
@@ -284,13 +292,20 @@ pub fn parse_module<'ast, T: Field, E: Into<imports::Error>>(
 
     log::debug!("Apply imports to absy for {}", location.display());
 
-    Importer::apply_imports::<T, E>(
+    ancestors.push(location.clone());
+
+    let module = Importer::apply_imports::<T, E>(
         module_without_imports,
-        location.clone(),
+        location,
         resolver,
         modules,
+        ancestors,
         arena,
-    )
+    )?;
+
+    ancestors.pop();
+
+    Ok(module)
 }
 
 #[cfg(test)]
diff --git a/zokrates_core/src/imports.rs b/zokrates_core/src/imports.rs
index 3bc08c5..76a3c1e 100644
--- a/zokrates_core/src/imports.rs
+++ b/zokrates_core/src/imports.rs
@@ -72,6 +72,7 @@ impl Importer {
         location: PathBuf,
         resolver: Option<&dyn Resolver<E>>,
         modules: &mut HashMap<OwnedModuleId, Module<'ast>>,
+        ancestors: &mut Vec<OwnedModuleId>,
         arena: &'ast Arena<String>,
     ) -> Result<Module<'ast>, CompileErrors> {
         let symbols: Vec<_> = destination
@@ -79,7 +80,9 @@ impl Importer {
             .into_iter()
             .map(|s| match s.value.symbol {
                 Symbol::Here(SymbolDefinition::Import(import)) => {
-                    Importer::resolve::<T, E>(import, &location, resolver, modules, arena)
+                    Importer::resolve::<T, E>(
+                        import, &location, resolver, modules, ancestors, arena,
+                    )
                 }
                 _ => Ok(s),
             })
@@ -93,6 +96,7 @@ impl Importer {
         location: &Path,
         resolver: Option<&dyn Resolver<E>>,
         modules: &mut HashMap<OwnedModuleId, Module<'ast>>,
+        ancestors: &mut Vec<OwnedModuleId>,
         arena: &'ast Arena<String>,
     ) -> Result<SymbolDeclarationNode<'ast>, CompileErrors> {
         let span = import.span().in_module(location);
@@ -228,12 +232,25 @@ impl Importer {
                         match modules.get(&new_location) {
                             Some(_) => {}
                             None => {
+                                if ancestors.contains(&new_location) {
+                                    return Err(CompileErrorInner::ImportError(
+                                        Error::new(format!(
+                                            "Cyclic import of {}",
+                                            module_id.display()
+                                        ))
+                                        .with_span(Some(span)),
+                                    )
+                                    .in_file(location)
+                                    .into());
+                                }
+
                                 let source = arena.alloc(source);
                                 let compiled = parse_module::<T, E>(
                                     source,
                                     new_location.clone(),
                                     resolver,
                                     modules,
+                                    ancestors,
                                     arena,
                                 )?;
 
-- 
2.43.0


From d431a04cbdf331e942ecc9c7543df5f87ab39b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:13 +0000
Subject: [PATCH 38/59] fix: a file imported through different relative paths
 was several modules

Types imported through one path were different from the types imported through the
other, so that valid programs were refused. zokrates_js normalizes paths already.
---
 zokrates_fs_resolver/src/lib.rs | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/zokrates_fs_resolver/src/lib.rs b/zokrates_fs_resolver/src/lib.rs
index 1289bbe..7957bbd 100644
--- a/zokrates_fs_resolver/src/lib.rs
+++ b/zokrates_fs_resolver/src/lib.rs
@@ -51,10 +51,30 @@ impl<'a> Resolver<io::Error> for FileSystemResolver<'a> {
         }
 
         let source = read_to_string(&path_owned)?;
-        Ok((source, path_owned))
+
+        // the same file can be imported via different paths, make sure we refer to it in the same way
+        // unless `..` cannot be resolved lexically, which is the case for symbolic links to directories
+        let normalized = normalize_path(&path_owned);
+        match (normalized.canonicalize(), path_owned.canonicalize()) {
+            (Ok(n), Ok(p)) if n == p => Ok((source, normalized)),
+            _ => Ok((source, path_owned)),
+        }
     }
 }
 
+fn normalize_path(path: &Path) -> PathBuf {
+    path.components()
+        .fold(PathBuf::new(), |mut normalized, component| {
+            match (component, normalized.components().last()) {
+                (Component::ParentDir, Some(Component::Normal(_))) => {
+                    normalized.pop();
+                }
+                _ => normalized.push(component),
+            }
+            normalized
+        })
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From 6c68dd2e4667f3cc39edf5b4d3944fa5f5999a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:05 +0000
Subject: [PATCH 39/59] fix: compiler panicked when only types are imported
 from a module which imports constants

---
 zokrates_analysis/src/constant_resolver.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/zokrates_analysis/src/constant_resolver.rs b/zokrates_analysis/src/constant_resolver.rs
index 5ff42f4..6503df0 100644
--- a/zokrates_analysis/src/constant_resolver.rs
+++ b/zokrates_analysis/src/constant_resolver.rs
@@ -61,6 +61,12 @@ impl<'ast, T: Field> Folder<'ast, T> for ConstantResolver<'ast, T> {
     fn fold_program(&mut self, p: TypedProgram<'ast, T>) -> TypedProgram<'ast, T> {
         self.fold_module_id(p.main.clone());
 
+        // some modules are not reached from main via functions and constants,
+        // for example if we only import types from them
+        for id in p.modules.keys() {
+            self.fold_module_id(id.clone());
+        }
+
         TypedProgram {
             modules: std::mem::take(&mut self.modules),
             ..p
-- 
2.43.0


From e0bb603f5bab56849cbc8e5831704b4ee5f77578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:09 +0000
Subject: [PATCH 40/59] fix: numbers which do not fit in their type crashed the
 compiler

A literal such as 256u8 and a tuple index above 2^32 are now reported as errors.
---
 zokrates_pest_ast/src/lib.rs | 41 +++++++++++++++++++++++++++++++++++-
 1 file changed, 40 insertions(+), 1 deletion(-)

diff --git a/zokrates_pest_ast/src/lib.rs b/zokrates_pest_ast/src/lib.rs
index 2fca23a..e7f4468 100644
--- a/zokrates_pest_ast/src/lib.rs
+++ b/zokrates_pest_ast/src/lib.rs
@@ -2,7 +2,7 @@
 #![allow(clippy::clone_on_copy)]
 
 use from_pest::FromPest;
-use pest::error::Error as PestError;
+use pest::error::{Error as PestError, ErrorVariant};
 use pest::iterators::Pairs;
 use std::fmt;
 use zokrates_parser::parse;
@@ -1179,9 +1179,48 @@ impl fmt::Display for Error {
 #[allow(clippy::result_large_err)]
 pub fn generate_ast(input: &str) -> Result<ast::File, Error> {
     let parse_tree = parse(input).map_err(Error)?;
+    check_numbers(parse_tree.clone())?;
     Ok(Prog::from(parse_tree).0)
 }
 
+// check that decimal numbers fit in the type given by their position or suffix
+#[allow(clippy::result_large_err)]
+fn check_numbers(parse_tree: Pairs<Rule>) -> Result<(), Error> {
+    for pair in parse_tree.flatten() {
+        let fits = match pair.as_rule() {
+            Rule::decimal_literal => {
+                let mut inner = pair.clone().into_inner();
+                let number = inner.next().map(|n| n.as_str()).unwrap_or_default();
+                let suffix = inner.next().and_then(|s| s.into_inner().next());
+                match suffix.map(|s| s.as_rule()) {
+                    Some(Rule::decimal_suffix_u8) => number.parse::<u8>().is_ok(),
+                    Some(Rule::decimal_suffix_u16) => number.parse::<u16>().is_ok(),
+                    Some(Rule::decimal_suffix_u32) => number.parse::<u32>().is_ok(),
+                    Some(Rule::decimal_suffix_u64) => number.parse::<u64>().is_ok(),
+                    _ => true,
+                }
+            }
+            // the index of a tuple element
+            Rule::identifier_or_decimal => pair
+                .clone()
+                .into_inner()
+                .all(|i| i.as_rule() != Rule::decimal_number || i.as_str().parse::<u32>().is_ok()),
+            _ => true,
+        };
+
+        if !fits {
+            return Err(Error(PestError::new_from_span(
+                ErrorVariant::CustomError {
+                    message: format!("`{}` is out of range", pair.as_str()),
+                },
+                pair.as_span(),
+            )));
+        }
+    }
+
+    Ok(())
+}
+
 #[cfg(test)]
 mod tests {
     use super::ast::*;
-- 
2.43.0


From 706a92a2671c31c1fb55954abe785e47a28a5d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:09 +0000
Subject: [PATCH 41/59] fix: shifting a constant by 128 or more crashed the
 compiler

---
 zokrates_analysis/src/propagation.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/zokrates_analysis/src/propagation.rs b/zokrates_analysis/src/propagation.rs
index c9acb30..b33787f 100644
--- a/zokrates_analysis/src/propagation.rs
+++ b/zokrates_analysis/src/propagation.rs
@@ -797,7 +797,10 @@ impl<'ast, T: Field> ResultFolder<'ast, T> for Propagator<'ast, T> {
                 let right = self.fold_uint_expression(*e.right)?;
                 match (left.into_inner(), right.into_inner()) {
                     (UExpressionInner::Value(v), UExpressionInner::Value(by)) => {
-                        Ok(UExpression::value(v.value >> by.value))
+                        Ok(UExpression::value(match by.value < bitwidth as u128 {
+                            true => v.value >> by.value,
+                            false => 0,
+                        }))
                     }
                     (e, by) => Ok(UExpression::right_shift(
                         e.annotate(bitwidth),
@@ -811,9 +814,10 @@ impl<'ast, T: Field> ResultFolder<'ast, T> for Propagator<'ast, T> {
                 let right = self.fold_uint_expression(*e.right)?;
                 match (left.into_inner(), right.into_inner()) {
                     (UExpressionInner::Value(v), UExpressionInner::Value(by)) => {
-                        Ok(UExpression::value(
-                            (v.value << by.value) & (2_u128.pow(bitwidth as u32) - 1),
-                        ))
+                        Ok(UExpression::value(match by.value < bitwidth as u128 {
+                            true => (v.value << by.value) & (2_u128.pow(bitwidth as u32) - 1),
+                            false => 0,
+                        }))
                     }
                     (e, by) => Ok(UExpression::left_shift(
                         e.annotate(bitwidth),
-- 
2.43.0


From a2a403d75bec62c6e2bc52427139b9a8f7b18e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:40 +0000
Subject: [PATCH 42/59] fix: assigning to a slice crashed the compiler

---
 zokrates_core/src/semantics.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/zokrates_core/src/semantics.rs b/zokrates_core/src/semantics.rs
index d1303b6..2cfe63b 100644
--- a/zokrates_core/src/semantics.rs
+++ b/zokrates_core/src/semantics.rs
@@ -2182,10 +2182,15 @@ impl<'ast, T: Field> Checker<'ast, T> {
                             RangeOrExpression::Expression(e) => {
                                 self.check_expression(e, module_id, types)?
                             }
-                            r => unimplemented!(
-                                "Using slices in assignments is not supported yet, found {}",
-                                r
-                            ),
+                            r => {
+                                return Err(ErrorInner {
+                                    span: Some(span),
+                                    message: format!(
+                                    "Using slices in assignments is not supported yet, found {}",
+                                    r
+                                ),
+                                })
+                            }
                         };
 
                         let checked_typed_index =
-- 
2.43.0


From 0554d1076f714b88288217419608c324b1d0e232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:27 +0000
Subject: [PATCH 43/59] fix: elements of arrays and tuples of untyped numbers
 crashed the compiler

---
 zokrates_core/src/semantics.rs | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/zokrates_core/src/semantics.rs b/zokrates_core/src/semantics.rs
index 2cfe63b..02162cd 100644
--- a/zokrates_core/src/semantics.rs
+++ b/zokrates_core/src/semantics.rs
@@ -332,6 +332,16 @@ pub struct Checker<'ast, T> {
     functions: HashSet<DeclarationFunctionKey<'ast, T>>,
 }
 
+// whether some numbers in this type have no type of their own
+fn contains_int<T>(ty: &Type<T>) -> bool {
+    match ty {
+        Type::Int => true,
+        Type::Array(a) => contains_int(&a.ty),
+        Type::Tuple(t) => t.elements.iter().any(contains_int),
+        _ => false,
+    }
+}
+
 impl<'ast, T: Field> Checker<'ast, T> {
     /// Check a `Program`
     ///
@@ -1919,7 +1929,7 @@ impl<'ast, T: Field> Checker<'ast, T> {
                 let mut errors = vec![];
 
                 for e in &expressions {
-                    if let TypedExpression::Int(e) = e {
+                    if contains_int(&e.get_type()) {
                         errors.push(ErrorInner {
                             span: Some(span),
                             message: format!("Cannot determine type for expression `{}`", e),
@@ -3172,7 +3182,10 @@ impl<'ast, T: Field> Checker<'ast, T> {
                                     Type::Array(..) => Ok(ArrayExpression::select(a, index).into()),
                                     Type::Struct(..) => Ok(StructExpression::select(a, index).into()),
                                     Type::Tuple(..) => Ok(TupleExpression::select(a, index).into()),
-                                    Type::Int => unreachable!(),
+                                    Type::Int => Err(ErrorInner {
+                                        span: Some(span),
+                                        message: format!("Cannot determine type for expression `{}`", a),
+                                    }),
                                 }
                             }
                             a => Err(ErrorInner {
@@ -3197,7 +3210,13 @@ impl<'ast, T: Field> Checker<'ast, T> {
 
                         match ty {
                             Some(ty) => match ty {
-                                Type::Int => unreachable!(),
+                                Type::Int => Err(ErrorInner {
+                                    span: Some(span),
+                                    message: format!(
+                                        "Cannot determine type for expression `{}`",
+                                        t
+                                    ),
+                                }),
                                 Type::FieldElement => {
                                     Ok(FieldElementExpression::element(t, index).into())
                                 }
-- 
2.43.0


From 1582e1211545c0e154f9945ebd5463f3af6e0a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:27 +0000
Subject: [PATCH 44/59] fix: struct values of types which are not structs
 crashed the compiler

---
 zokrates_core/src/semantics.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/zokrates_core/src/semantics.rs b/zokrates_core/src/semantics.rs
index 02162cd..c607e98 100644
--- a/zokrates_core/src/semantics.rs
+++ b/zokrates_core/src/semantics.rs
@@ -3415,7 +3415,12 @@ impl<'ast, T: Field> Checker<'ast, T> {
 
                 let mut declared_struct_type = match ty.ty {
                     DeclarationType::Struct(struct_type) => struct_type,
-                    _ => unreachable!(),
+                    ty => {
+                        return Err(ErrorInner {
+                            span: Some(span),
+                            message: format!("Expected `{}` to be a struct, found {}", id, ty),
+                        })
+                    }
                 };
 
                 declared_struct_type.generics = (0..declared_struct_type.generics.len())
-- 
2.43.0


From 3e41e55b624843b25be6437c1aae6a01d790f26a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:27 +0000
Subject: [PATCH 45/59] fix: exponents which are not u32 were accepted

---
 zokrates_core/src/semantics.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/zokrates_core/src/semantics.rs b/zokrates_core/src/semantics.rs
index c607e98..25786a5 100644
--- a/zokrates_core/src/semantics.rs
+++ b/zokrates_core/src/semantics.rs
@@ -2683,9 +2683,13 @@ impl<'ast, T: Field> Checker<'ast, T> {
                 };
 
                 match (e1_checked, e2_checked) {
-                    (TypedExpression::FieldElement(e1), TypedExpression::Uint(e2)) => Ok(
-                        TypedExpression::FieldElement(FieldElementExpression::pow(e1, e2)),
-                    ),
+                    (TypedExpression::FieldElement(e1), TypedExpression::Uint(e2))
+                        if e2.bitwidth() == UBitwidth::B32 =>
+                    {
+                        Ok(TypedExpression::FieldElement(FieldElementExpression::pow(
+                            e1, e2,
+                        )))
+                    }
                     (t1, t2) => Err(ErrorInner {
                         span: Some(span),
 
-- 
2.43.0


From 03146de0b10ca18510b6095bb383c8a1e3d3100c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:27 +0000
Subject: [PATCH 46/59] fix: branches of different types were accepted in
 conditional expressions

---
 zokrates_ast/src/typed/integer.rs | 4 ++++
 zokrates_core/src/semantics.rs    | 2 +-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/zokrates_ast/src/typed/integer.rs b/zokrates_ast/src/typed/integer.rs
index b2d1f03..2d3024e 100644
--- a/zokrates_ast/src/typed/integer.rs
+++ b/zokrates_ast/src/typed/integer.rs
@@ -103,6 +103,10 @@ impl<'ast, T: Clone> IntegerInference for StructType<'ast, T> {
     type Pattern = DeclarationStructType<'ast, T>;
 
     fn get_common_pattern(self, other: Self) -> Result<Self::Pattern, (Self, Self)> {
+        if self.canonical_location != other.canonical_location {
+            return Err((self, other));
+        }
+
         Ok(DeclarationStructType {
             members: self
                 .members
diff --git a/zokrates_core/src/semantics.rs b/zokrates_core/src/semantics.rs
index 25786a5..c72df39 100644
--- a/zokrates_core/src/semantics.rs
+++ b/zokrates_core/src/semantics.rs
@@ -2794,7 +2794,7 @@ impl<'ast, T: Field> Checker<'ast, T> {
                             (TypedExpression::Tuple(consequence), TypedExpression::Tuple(alternative)) => {
                                 Ok(TupleExpression::conditional(condition, consequence, alternative, kind).into())
                             },
-                            (TypedExpression::Uint(consequence), TypedExpression::Uint(alternative)) => {
+                            (TypedExpression::Uint(consequence), TypedExpression::Uint(alternative)) if consequence.bitwidth() == alternative.bitwidth() => {
                                 Ok(UExpression::conditional(condition, consequence, alternative, kind).into())
                             },
                             (TypedExpression::Int(consequence), TypedExpression::Int(alternative)) => {
-- 
2.43.0


From e594d16509823d065b5fddeab984a1ac5688ac53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:27 +0000
Subject: [PATCH 47/59] fix: array elements and branches of different sizes and
 invalid slices were accepted or crashed the compiler

---
 zokrates_analysis/src/propagation.rs | 85 +++++++++++++++++++++++++---
 1 file changed, 78 insertions(+), 7 deletions(-)

diff --git a/zokrates_analysis/src/propagation.rs b/zokrates_analysis/src/propagation.rs
index b33787f..63ac6b3 100644
--- a/zokrates_analysis/src/propagation.rs
+++ b/zokrates_analysis/src/propagation.rs
@@ -20,7 +20,7 @@ use zokrates_ast::common::expressions::{
 use zokrates_ast::common::operators::OpEq;
 use zokrates_ast::common::{FlatEmbed, ResultFold, WithSpan};
 use zokrates_ast::typed::result_folder::*;
-use zokrates_ast::typed::types::Type;
+use zokrates_ast::typed::types::{IntoType, Type};
 use zokrates_ast::typed::*;
 use zokrates_field::Field;
 
@@ -32,6 +32,7 @@ pub enum Error {
     AssertionFailed(RuntimeError),
     InvalidValue(String),
     OutOfBounds(u128, u128),
+    InvalidSlice(u128, u128, u128),
     VariableLength(String),
     DivisionByZero,
 }
@@ -47,6 +48,11 @@ impl fmt::Display for Error {
                 "Out of bounds index ({} >= {}) found during static analysis",
                 index, size
             ),
+            Error::InvalidSlice(from, to, size) => write!(
+                f,
+                "Invalid slice ({}..{} of an array of size {}) found during static analysis",
+                from, to, size
+            ),
             Error::VariableLength(message) => write!(f, "{}", message),
             Error::DivisionByZero => {
                 write!(f, "Division by zero detected during static analysis",)
@@ -196,9 +202,26 @@ impl<'ast, T: Field> ResultFolder<'ast, T> for Propagator<'ast, T> {
                 (consequence, alternative) if consequence == alternative => {
                     ConditionalOrExpression::Expression(consequence.into_inner())
                 }
-                (consequence, alternative) => ConditionalOrExpression::Conditional(
-                    ConditionalExpression::new(condition, consequence, alternative, e.kind),
-                ),
+                (consequence, alternative) => {
+                    if let (Ok(c), Ok(a)) = (
+                        ConcreteType::try_from(consequence.ty().clone().into_type()),
+                        ConcreteType::try_from(alternative.ty().clone().into_type()),
+                    ) {
+                        if c != a {
+                            return Err(Error::Type(format!(
+                                "The branches of a conditional expression should have the same type, found {} of type {} and {} of type {}",
+                                consequence, c, alternative, a
+                            )));
+                        }
+                    }
+
+                    ConditionalOrExpression::Conditional(ConditionalExpression::new(
+                        condition,
+                        consequence,
+                        alternative,
+                        e.kind,
+                    ))
+                }
             },
         })
     }
@@ -1243,6 +1266,30 @@ impl<'ast, T: Field> ResultFolder<'ast, T> for Propagator<'ast, T> {
         }
     }
 
+    fn fold_slice_expression(
+        &mut self,
+        e: SliceExpression<'ast, T>,
+    ) -> Result<SliceOrExpression<'ast, T>, Self::Error> {
+        let array = self.fold_array_expression(*e.array)?;
+        let from = self.fold_uint_expression(*e.from)?;
+        let to = self.fold_uint_expression(*e.to)?;
+
+        if let (
+            UExpressionInner::Value(from),
+            UExpressionInner::Value(to),
+            UExpressionInner::Value(size),
+        ) = (from.as_inner(), to.as_inner(), array.size().as_inner())
+        {
+            if from.value > to.value || to.value > size.value {
+                return Err(Error::InvalidSlice(from.value, to.value, size.value));
+            }
+        }
+
+        Ok(SliceOrExpression::Slice(SliceExpression::new(
+            array, from, to,
+        )))
+    }
+
     fn fold_array_type(
         &mut self,
         t: ArrayType<'ast, T>,
@@ -1266,11 +1313,35 @@ impl<'ast, T: Field> ResultFolder<'ast, T> for Propagator<'ast, T> {
     ) -> Result<ArrayExpressionInner<'ast, T>, Error> {
         match e {
             ArrayExpressionInner::Value(exprs) => {
+                let exprs = exprs
+                    .into_iter()
+                    .map(|e| self.fold_expression_or_spread(e))
+                    .collect::<Result<Vec<_>, _>>()?;
+
+                // the types of the elements can differ by their sizes and generic parameters
+                if let (Type::Array(..) | Type::Struct(..) | Type::Tuple(..), Ok(t)) =
+                    (&*ty.ty, ConcreteType::try_from(*ty.ty.clone()))
+                {
+                    for e in &exprs {
+                        let e_ty = match e {
+                            TypedExpressionOrSpread::Expression(e) => e.get_type(),
+                            TypedExpressionOrSpread::Spread(s) => s.array.inner_type().clone(),
+                        };
+
+                        match ConcreteType::try_from(e_ty) {
+                            Ok(e_ty) if e_ty != t => {
+                                return Err(Error::Type(format!(
+                                    "Array element `{}` expected to have type `{}`, found type `{}`",
+                                    e, t, e_ty
+                                )))
+                            }
+                            _ => {}
+                        }
+                    }
+                }
+
                 Ok(ArrayExpressionInner::Value(
                     exprs
-                        .into_iter()
-                        .map(|e| self.fold_expression_or_spread(e))
-                        .collect::<Result<Vec<_>, _>>()?
                         .into_iter()
                         .flat_map(|e| {
                             match e {
-- 
2.43.0


From 5fae62391084efd1cbd9511fa90170b58f54f68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:27 +0000
Subject: [PATCH 48/59] fix: constraints of an assembly block were dropped
 while the variables they constrain stayed in use

---
 zokrates_core/src/optimizer/redefinition.rs | 38 +++++++++++++++++++--
 1 file changed, 36 insertions(+), 2 deletions(-)

diff --git a/zokrates_core/src/optimizer/redefinition.rs b/zokrates_core/src/optimizer/redefinition.rs
index 5588046..dc774e9 100644
--- a/zokrates_core/src/optimizer/redefinition.rs
+++ b/zokrates_core/src/optimizer/redefinition.rs
@@ -67,6 +67,10 @@ impl<T: Field> RedefinitionOptimizer<T> {
         }
     }
 
+    fn ignore_variables(&mut self, l: &LinComb<T>) {
+        self.ignore.extend(l.value.iter().map(|(v, _)| *v));
+    }
+
     fn fold_statement_cases<'ast>(
         &mut self,
         s: Statement<'ast, T>,
@@ -88,8 +92,19 @@ impl<T: Field> RedefinitionOptimizer<T> {
                     false => match lin.try_summand() {
                         // if the right side is a single variable
                         Ok((variable, coefficient)) => match quad.try_linear() {
-                            // if the left side is linear
-                            Ok(l) => (None, Some((variable, l / &coefficient)), None),
+                            // if the left side is linear, unless it would define the variable by itself
+                            Ok(l) if l.value.iter().all(|(v, _)| *v != variable) => {
+                                (None, Some((variable, l / &coefficient)), None)
+                            }
+                            Ok(l) => (
+                                Some(Statement::constraint(
+                                    l,
+                                    LinComb::summand(coefficient, variable),
+                                    s.error,
+                                )),
+                                None,
+                                Some(variable),
+                            ),
                             // if the left side isn't linear
                             Err(quad) => (
                                 Some(Statement::constraint(
@@ -110,6 +125,18 @@ impl<T: Field> RedefinitionOptimizer<T> {
                     self.ignore.insert(v);
                 }
 
+                // in a block, the outputs of directives can still be substituted, but not once they are used
+                if aggressive {
+                    if let Some(Statement::Constraint(s)) = &constraint {
+                        self.ignore_variables(&s.quad.left);
+                        self.ignore_variables(&s.quad.right);
+                        self.ignore_variables(&s.lin);
+                    }
+                    if let Some((_, l)) = &to_insert {
+                        self.ignore_variables(l);
+                    }
+                }
+
                 // insert into the substitution map
                 if let Some((k, v)) = to_insert {
                     self.substitution.insert(k, v.into_canonical());
@@ -183,6 +210,13 @@ impl<T: Field> RedefinitionOptimizer<T> {
                                 self.ignore.insert(o);
                             }
                         }
+                        if aggressive {
+                            for i in &inputs {
+                                self.ignore_variables(&i.left);
+                                self.ignore_variables(&i.right);
+                            }
+                        }
+
                         vec![Statement::directive(d.outputs, d.solver, inputs)]
                     }
                 }
-- 
2.43.0


From fc77b65a9a0023f08369fd0796a74644f8d205de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:04 +0000
Subject: [PATCH 49/59] fix: whitespace inside a hexadecimal number crashed the
 compiler

---
 zokrates_parser/src/zokrates.pest | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/zokrates_parser/src/zokrates.pest b/zokrates_parser/src/zokrates.pest
index a8f29e3..fb898ad 100644
--- a/zokrates_parser/src/zokrates.pest
+++ b/zokrates_parser/src/zokrates.pest
@@ -154,10 +154,10 @@ boolean_literal = { "true" | "false" }
 
 hex_literal = !{ "0x" ~ hex_number }
 hex_number = { hex_number_u64 | hex_number_u32 | hex_number_u16 | hex_number_u8 }
-hex_number_u8 = { ASCII_HEX_DIGIT{2} }
-hex_number_u16 = { ASCII_HEX_DIGIT{4} }
-hex_number_u32 = { ASCII_HEX_DIGIT{8} }
-hex_number_u64 = { ASCII_HEX_DIGIT{16} }
+hex_number_u8 = @{ ASCII_HEX_DIGIT{2} }
+hex_number_u16 = @{ ASCII_HEX_DIGIT{4} }
+hex_number_u32 = @{ ASCII_HEX_DIGIT{8} }
+hex_number_u64 = @{ ASCII_HEX_DIGIT{16} }
 
 // Operators
 
-- 
2.43.0


From 80c5ddb99e2813b597ac4ea1985d31337e0aa346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:04 +0000
Subject: [PATCH 50/59] fix: assigning an assembly variable from its own value
 crashed the compiler

---
 zokrates_ast/src/typed/folder.rs        | 3 ++-
 zokrates_ast/src/typed/result_folder.rs | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/zokrates_ast/src/typed/folder.rs b/zokrates_ast/src/typed/folder.rs
index 424109b..677315f 100644
--- a/zokrates_ast/src/typed/folder.rs
+++ b/zokrates_ast/src/typed/folder.rs
@@ -790,8 +790,9 @@ pub fn fold_assembly_assignment<'ast, T: Field, F: Folder<'ast, T>>(
     f: &mut F,
     s: AssemblyAssignment<'ast, T>,
 ) -> Vec<TypedAssemblyStatement<'ast, T>> {
-    let assignee = f.fold_assignee(s.assignee);
+    // the expression refers to the variables as they are before the assignment
     let expression = f.fold_expression(s.expression);
+    let assignee = f.fold_assignee(s.assignee);
     vec![TypedAssemblyStatement::assignment(assignee, expression)]
 }
 
diff --git a/zokrates_ast/src/typed/result_folder.rs b/zokrates_ast/src/typed/result_folder.rs
index d8541ad..2f54519 100644
--- a/zokrates_ast/src/typed/result_folder.rs
+++ b/zokrates_ast/src/typed/result_folder.rs
@@ -769,8 +769,8 @@ pub fn fold_assembly_assignment<'ast, T: Field, F: ResultFolder<'ast, T>>(
     f: &mut F,
     s: AssemblyAssignment<'ast, T>,
 ) -> Result<Vec<TypedAssemblyStatement<'ast, T>>, F::Error> {
-    let assignee = f.fold_assignee(s.assignee)?;
     let expression = f.fold_expression(s.expression)?;
+    let assignee = f.fold_assignee(s.assignee)?;
     Ok(vec![TypedAssemblyStatement::assignment(
         assignee, expression,
     )])
-- 
2.43.0


From feacbbaa703b3fc94f26bd33072af7761b3ff661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:04 +0000
Subject: [PATCH 51/59] fix: displaying a struct with an unnamed generic
 parameter crashed the compiler

---
 zokrates_ast/src/typed/types.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zokrates_ast/src/typed/types.rs b/zokrates_ast/src/typed/types.rs
index 8a0614a..7033cfa 100644
--- a/zokrates_ast/src/typed/types.rs
+++ b/zokrates_ast/src/typed/types.rs
@@ -115,7 +115,7 @@ impl<'ast> Hash for GenericIdentifier<'ast> {
 
 impl<'ast> fmt::Display for GenericIdentifier<'ast> {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
-        write!(f, "{}", self.name())
+        write!(f, "{}", self.name.unwrap_or("_"))
     }
 }
 
-- 
2.43.0


From 62b1f3cf3f6e6bccf5843d30e7483a4ceb0f33e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:04 +0000
Subject: [PATCH 52/59] fix: a wrongly sized alternative of a constant
 condition crashed the compiler

---
 zokrates_analysis/src/propagation.rs | 37 ++++++++++++++++++----------
 1 file changed, 24 insertions(+), 13 deletions(-)

diff --git a/zokrates_analysis/src/propagation.rs b/zokrates_analysis/src/propagation.rs
index 63ac6b3..b4185be 100644
--- a/zokrates_analysis/src/propagation.rs
+++ b/zokrates_analysis/src/propagation.rs
@@ -68,6 +68,22 @@ pub struct Propagator<'ast, T> {
     pub constants: Constants<'ast, T>,
 }
 
+fn check_branches<'ast, T: Field, E: Expr<'ast, T>>(
+    consequence: &E::Ty,
+    alternative: &E::Ty,
+) -> Result<(), Error> {
+    match (
+        ConcreteType::try_from(consequence.clone().into_type()),
+        ConcreteType::try_from(alternative.clone().into_type()),
+    ) {
+        (Ok(c), Ok(a)) if c != a => Err(Error::Type(format!(
+            "The branches of a conditional expression should have the same type, found {} and {}",
+            c, a
+        ))),
+        _ => Ok(()),
+    }
+}
+
 impl<'ast, T: Field> Propagator<'ast, T> {
     pub fn propagate(p: TypedProgram<'ast, T>) -> Result<TypedProgram<'ast, T>, Error> {
         Propagator::default().fold_program(p)
@@ -188,7 +204,7 @@ impl<'ast, T: Field> ResultFolder<'ast, T> for Propagator<'ast, T> {
         E: Expr<'ast, T> + Conditional<'ast, T> + PartialEq + ResultFold<Self, Self::Error>,
     >(
         &mut self,
-        _: &E::Ty,
+        ty: &E::Ty,
         e: ConditionalExpression<'ast, T, E>,
     ) -> Result<ConditionalOrExpression<'ast, T, E>, Self::Error> {
         Ok(match self.fold_boolean_expression(*e.condition)? {
@@ -196,24 +212,19 @@ impl<'ast, T: Field> ResultFolder<'ast, T> for Propagator<'ast, T> {
                 ConditionalOrExpression::Expression(e.consequence.fold(self)?.into_inner())
             }
             BooleanExpression::Value(v) if !v.value => {
-                ConditionalOrExpression::Expression(e.alternative.fold(self)?.into_inner())
+                let alternative = e.alternative.fold(self)?;
+
+                // the type of the whole expression is the type of its consequence
+                check_branches::<T, E>(ty, alternative.ty())?;
+
+                ConditionalOrExpression::Expression(alternative.into_inner())
             }
             condition => match (e.consequence.fold(self)?, e.alternative.fold(self)?) {
                 (consequence, alternative) if consequence == alternative => {
                     ConditionalOrExpression::Expression(consequence.into_inner())
                 }
                 (consequence, alternative) => {
-                    if let (Ok(c), Ok(a)) = (
-                        ConcreteType::try_from(consequence.ty().clone().into_type()),
-                        ConcreteType::try_from(alternative.ty().clone().into_type()),
-                    ) {
-                        if c != a {
-                            return Err(Error::Type(format!(
-                                "The branches of a conditional expression should have the same type, found {} of type {} and {} of type {}",
-                                consequence, c, alternative, a
-                            )));
-                        }
-                    }
+                    check_branches::<T, E>(consequence.ty(), alternative.ty())?;
 
                     ConditionalOrExpression::Conditional(ConditionalExpression::new(
                         condition,
-- 
2.43.0


From 0c3546fdac57691829b6b350405b0d5e0dfc300a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:22 +0000
Subject: [PATCH 53/59] fix: constant directives which fail and cancelled
 right-hand sides crashed the optimizer

---
 zokrates_core/src/optimizer/redefinition.rs | 24 +++++++++++++++------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/zokrates_core/src/optimizer/redefinition.rs b/zokrates_core/src/optimizer/redefinition.rs
index dc774e9..bc933b9 100644
--- a/zokrates_core/src/optimizer/redefinition.rs
+++ b/zokrates_core/src/optimizer/redefinition.rs
@@ -90,6 +90,12 @@ impl<T: Field> RedefinitionOptimizer<T> {
                 {
                     true => (Some(Statement::constraint(quad, lin, s.error)), None, None),
                     false => match lin.try_summand() {
+                        // if the variable cancels out
+                        Ok((_, coefficient)) if coefficient == T::from(0) => (
+                            Some(Statement::constraint(quad, LinComb::zero(), s.error)),
+                            None,
+                            None,
+                        ),
                         // if the right side is a single variable
                         Ok((variable, coefficient)) => match quad.try_linear() {
                             // if the left side is linear, unless it would define the variable by itself
@@ -180,12 +186,16 @@ impl<T: Field> RedefinitionOptimizer<T> {
                     })
                     .collect::<Vec<Result<T, QuadComb<T>>>>();
 
-                match inputs.iter().all(|i| i.is_ok()) {
-                    true => {
-                        // unwrap inputs to their constant value
-                        let inputs: Vec<_> = inputs.into_iter().map(|i| i.unwrap()).collect();
-                        // run the solver
-                        let outputs = Interpreter::execute_solver(&d.solver, &inputs, &[]).unwrap();
+                // if they all are, run the solver. A solver can fail on some inputs, in which case the
+                // directive is kept so that it fails when the program is executed
+                let outputs = inputs
+                    .iter()
+                    .map(|i| i.as_ref().ok().cloned())
+                    .collect::<Option<Vec<_>>>()
+                    .and_then(|inputs| Interpreter::execute_solver(&d.solver, &inputs, &[]).ok());
+
+                match outputs {
+                    Some(outputs) => {
                         assert_eq!(outputs.len(), d.outputs.len());
 
                         // insert the results in the substitution
@@ -195,7 +205,7 @@ impl<T: Field> RedefinitionOptimizer<T> {
                         }
                         vec![]
                     }
-                    false => {
+                    None => {
                         //reconstruct the input expressions
                         let inputs: Vec<_> = inputs
                             .into_iter()
-- 
2.43.0


From 1ea868478ae660d840391ef7c62c58b3e983dd1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:23 +0000
Subject: [PATCH 54/59] fix: unused arguments of assembly assignments crashed
 code generation

---
 .../src/flatten_complex_types.rs              | 26 +++++++++++++++++++
 zokrates_analysis/src/zir_propagation.rs      |  4 ++-
 2 files changed, 29 insertions(+), 1 deletion(-)

diff --git a/zokrates_analysis/src/flatten_complex_types.rs b/zokrates_analysis/src/flatten_complex_types.rs
index fa24467..aee5187 100644
--- a/zokrates_analysis/src/flatten_complex_types.rs
+++ b/zokrates_analysis/src/flatten_complex_types.rs
@@ -511,6 +511,32 @@ pub struct ArgumentFinder<'ast, T> {
     _phantom: PhantomData<T>,
 }
 
+impl<'ast, T: Field> ArgumentFinder<'ast, T> {
+    // remove the arguments which the statements of the function do not use
+    pub fn remove_unused(function: zir::ZirFunction<'ast, T>) -> zir::ZirFunction<'ast, T> {
+        let mut finder = Self::default();
+        for s in function.statements.iter().rev() {
+            finder.fold_statement(s.clone());
+        }
+
+        let (arguments, inputs) = function
+            .arguments
+            .into_iter()
+            .zip(function.signature.inputs)
+            .filter(|(a, _)| finder.identifiers.contains_key(&a.id.id))
+            .unzip();
+
+        zir::ZirFunction {
+            arguments,
+            signature: zir::types::Signature {
+                inputs,
+                ..function.signature
+            },
+            ..function
+        }
+    }
+}
+
 impl<'ast, T: Field> Folder<'ast, T> for ArgumentFinder<'ast, T> {
     fn fold_assembly_block(
         &mut self,
diff --git a/zokrates_analysis/src/zir_propagation.rs b/zokrates_analysis/src/zir_propagation.rs
index 0e88f6e..ac94f97 100644
--- a/zokrates_analysis/src/zir_propagation.rs
+++ b/zokrates_analysis/src/zir_propagation.rs
@@ -4,6 +4,7 @@ use std::collections::HashMap;
 use std::fmt;
 use std::ops::*;
 use zokrates_ast::common::{ResultFold, WithSpan};
+use crate::flatten_complex_types::ArgumentFinder;
 use zokrates_ast::zir::types::UBitwidth;
 use zokrates_ast::zir::AssertionStatement;
 use zokrates_ast::zir::IfElseStatement;
@@ -115,7 +116,8 @@ impl<'ast, T: Field> ResultFolder<'ast, T> for ZirPropagator<'ast, T> {
             .map(|a| self.fold_assignee(a))
             .collect::<Result<_, _>>()?;
 
-        let function = self.fold_function(s.expression)?;
+        // some of the arguments may not be used anymore after propagation
+        let function = ArgumentFinder::remove_unused(self.fold_function(s.expression)?);
 
         match &function.statements.last().unwrap() {
             ZirStatement::Return(s) => {
-- 
2.43.0


From c8c8b942e512281547c78cc29ecf333ab6c7aaf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:56 +0000
Subject: [PATCH 55/59] fix: outputs of assembly blocks were redefined after
 constraints had used them

---
 zokrates_core/src/optimizer/redefinition.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/zokrates_core/src/optimizer/redefinition.rs b/zokrates_core/src/optimizer/redefinition.rs
index bc933b9..2902bfb 100644
--- a/zokrates_core/src/optimizer/redefinition.rs
+++ b/zokrates_core/src/optimizer/redefinition.rs
@@ -82,6 +82,10 @@ impl<T: Field> RedefinitionOptimizer<T> {
                 let lin = self.fold_linear_combination(s.lin);
 
                 if lin.is_zero() {
+                    if aggressive {
+                        self.ignore_variables(&quad.left);
+                        self.ignore_variables(&quad.right);
+                    }
                     return vec![Statement::constraint(quad, lin, s.error)];
                 }
 
@@ -254,7 +258,7 @@ impl<'ast, T: Field> Folder<'ast, T> for RedefinitionOptimizer<T> {
                     .collect();
 
                 // clean up
-                let statements = statements
+                let statements: Vec<_> = statements
                     .into_iter()
                     .filter(|s| match s {
                         // we remove a directive iff it has a single output and this output is in the substitution map, meaning it was propagated
@@ -265,6 +269,13 @@ impl<'ast, T: Field> Folder<'ast, T> for RedefinitionOptimizer<T> {
                     })
                     .collect();
 
+                // after the block, the outputs of the remaining directives cannot be substituted anymore
+                for s in &statements {
+                    if let Statement::Directive(d) = s {
+                        self.ignore.extend(d.outputs.iter().cloned());
+                    }
+                }
+
                 vec![Statement::block(statements)]
             }
             s => self.fold_statement_cases(s, false),
-- 
2.43.0


From ea8d782455b9df2787496544cd523e06874ca8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:32 +0000
Subject: [PATCH 56/59] fix: identical log statements were only printed once

---
 zokrates_core/src/optimizer/duplicate.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/zokrates_core/src/optimizer/duplicate.rs b/zokrates_core/src/optimizer/duplicate.rs
index 9f12e1e..d08629b 100644
--- a/zokrates_core/src/optimizer/duplicate.rs
+++ b/zokrates_core/src/optimizer/duplicate.rs
@@ -45,6 +45,8 @@ impl<'ast, T: Field> Folder<'ast, T> for DuplicateOptimizer {
                 .into_iter()
                 .flat_map(|s| self.fold_statement(s))
                 .collect(),
+            // logging the same values twice is not redundant
+            Statement::Log(s) => vec![Statement::Log(s)],
             s => {
                 let hashed = hash(&s);
                 let result = match self.seen.get(&hashed) {
-- 
2.43.0


From 3046158a988f9d945e51aec30d52218d681dc43b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:28 +0000
Subject: [PATCH 57/59] fix: the constant one was a free variable of Nova step
 circuits

---
 zokrates_bellperson/src/nova.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/zokrates_bellperson/src/nova.rs b/zokrates_bellperson/src/nova.rs
index ae4b619..d435fca 100644
--- a/zokrates_bellperson/src/nova.rs
+++ b/zokrates_bellperson/src/nova.rs
@@ -14,6 +14,7 @@ pub use nova_snark::RecursiveSNARK as GRecursiveSNARK;
 use nova_snark::VerifierKey as GVerifierKey;
 use serde::{Deserialize, Serialize};
 use std::fmt;
+use zokrates_ast::common::flat::Variable;
 use zokrates_ast::ir::*;
 use zokrates_field::{BellpersonFieldExtensions, Cycle, Field};
 use zokrates_interpreter::Interpreter;
@@ -243,6 +244,9 @@ impl<'ast, T: Field + BellpersonFieldExtensions + Cycle> StepCircuit<T::Bellpers
                 .unwrap();
         }
 
+        // the constant one is not a variable the prover is free to choose
+        symbols.insert(Variable::one(), CS::one());
+
         // allocate the inputs
         for (p, allocated_num) in self.computation.program.arguments.iter().zip(input) {
             symbols.insert(p.id, allocated_num.get_variable());
-- 
2.43.0


From b91ee68acdc75b2626f3addac921f0fa91f43481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:04 +0000
Subject: [PATCH 58/59] fix: executing a program which uses variables without a
 value crashed the interpreter

---
 zokrates_interpreter/src/lib.rs | 77 ++++++++++++++++++++++-----------
 1 file changed, 52 insertions(+), 25 deletions(-)

diff --git a/zokrates_interpreter/src/lib.rs b/zokrates_interpreter/src/lib.rs
index 46d1b85..c1f244c 100644
--- a/zokrates_interpreter/src/lib.rs
+++ b/zokrates_interpreter/src/lib.rs
@@ -70,12 +70,12 @@ impl Interpreter {
                 Statement::Block(..) => unreachable!(),
                 Statement::Constraint(s) => match s.lin.is_assignee(&witness) {
                     true => {
-                        let val = evaluate_quad(&witness, &s.quad).unwrap();
+                        let val = evaluate_quad(&witness, &s.quad)?;
                         witness.insert(s.lin.value.get(0).unwrap().0, val);
                     }
                     false => {
-                        let lhs_value = evaluate_quad(&witness, &s.quad).unwrap();
-                        let rhs_value = evaluate_lin(&witness, &s.lin).unwrap();
+                        let lhs_value = evaluate_quad(&witness, &s.quad)?;
+                        let rhs_value = evaluate_lin(&witness, &s.lin)?;
                         if lhs_value != rhs_value {
                             return Err(Error::UnsatisfiedConstraint {
                                 error: s.error.clone(),
@@ -87,8 +87,8 @@ impl Interpreter {
                     let mut inputs: Vec<_> = d
                         .inputs
                         .iter()
-                        .map(|i| evaluate_quad(&witness, i).unwrap())
-                        .collect();
+                        .map(|i| evaluate_quad(&witness, i))
+                        .collect::<Result<_, _>>()?;
 
                     let res = match (&d.solver, self.should_try_out_of_range) {
                         (Solver::Bits(bitwidth), true) if *bitwidth >= T::get_required_bits() => {
@@ -101,8 +101,16 @@ impl Interpreter {
                     }
                     .map_err(Error::Solver)?;
 
-                    for (i, o) in d.outputs.iter().enumerate() {
-                        witness.insert(*o, res[i]);
+                    if res.len() != d.outputs.len() {
+                        return Err(Error::Solver(format!(
+                            "Expected {} outputs, found {}",
+                            d.outputs.len(),
+                            res.len()
+                        )));
+                    }
+
+                    for (o, v) in d.outputs.iter().zip(res) {
+                        witness.insert(*o, v);
                     }
                 }
                 Statement::Log(s) => {
@@ -114,8 +122,8 @@ impl Interpreter {
                     for ((t, e), part) in s.expressions.iter().zip(parts) {
                         let values: Vec<_> = e
                             .iter()
-                            .map(|e| evaluate_lin(&witness, e).unwrap())
-                            .collect();
+                            .map(|e| evaluate_lin(&witness, e))
+                            .collect::<Result<_, _>>()?;
 
                         write!(
                             log_stream,
@@ -177,12 +185,20 @@ impl Interpreter {
         };
 
         let (expected_input_count, expected_output_count) = solver.get_signature();
-        assert_eq!(inputs.len(), expected_input_count);
+        if inputs.len() != expected_input_count {
+            return Err(format!(
+                "Expected {} inputs, found {}",
+                expected_input_count,
+                inputs.len()
+            ));
+        }
 
         let res = match solver {
             Solver::Zir(func) => {
                 use zokrates_ast::zir::result_folder::ResultFolder;
-                assert_eq!(func.arguments.len(), inputs.len());
+                if func.arguments.len() != inputs.len() {
+                    return Err("Solver arguments do not match its signature".to_string());
+                }
 
                 let constants = func
                     .arguments
@@ -229,21 +245,18 @@ impl Interpreter {
                     .fold_function(func.clone())
                     .map_err(|e| e.to_string())?;
 
-                assert_eq!(folded_function.statements.len(), 1);
-                if let zokrates_ast::zir::ZirStatement::Return(v) =
-                    folded_function.statements[0].clone()
-                {
-                    v.inner
-                        .into_iter()
+                match folded_function.statements.as_slice() {
+                    [zokrates_ast::zir::ZirStatement::Return(v)] => v
+                        .inner
+                        .iter()
                         .map(|v| match v {
                             zokrates_ast::zir::ZirExpression::FieldElement(
                                 zokrates_ast::zir::FieldElementExpression::Value(n),
-                            ) => n.value,
-                            _ => unreachable!(),
+                            ) => Ok(n.value),
+                            v => Err(format!("Could not evaluate `{}`", v)),
                         })
-                        .collect()
-                } else {
-                    unreachable!()
+                        .collect::<Result<_, _>>()?,
+                    _ => return Err("Could not evaluate the solver".to_string()),
                 }
             }
             Solver::ConditionEq => match inputs[0].is_zero() {
@@ -343,10 +356,16 @@ impl Interpreter {
                     &inputs[*n + 8usize..],
                 )
             }
-            _ => unreachable!("unexpected solver"),
+            _ => return Err("Unexpected solver".to_string()),
         };
 
-        assert_eq!(res.len(), expected_output_count);
+        if res.len() != expected_output_count {
+            return Err(format!(
+                "Expected {} outputs, found {}",
+                expected_output_count,
+                res.len()
+            ));
+        }
 
         Ok(res)
     }
@@ -361,6 +380,13 @@ pub enum Error {
     Solver(String),
     WrongInputCount { expected: usize, received: usize },
     LogStream,
+    Evaluation,
+}
+
+impl From<EvaluationError> for Error {
+    fn from(_: EvaluationError) -> Self {
+        Error::Evaluation
+    }
 }
 
 fn evaluate_lin<T: Field>(w: &Witness<T>, l: &LinComb<T>) -> Result<T, EvaluationError> {
@@ -387,7 +413,7 @@ impl fmt::Display for Error {
                     error
                         .as_ref()
                         .map(|m| m.to_string())
-                        .expect("Found an unsatisfied constraint without an attached error.")
+                        .unwrap_or_else(|| "Unsatisfied constraint".to_string())
                 )?;
 
                 match error {
@@ -408,6 +434,7 @@ impl fmt::Display for Error {
                 if received == 1 { "" } else { "s" }
             ),
             Error::LogStream => write!(f, "Error writing a log to the log stream"),
+            Error::Evaluation => write!(f, "A variable is used which has no value"),
         }
     }
 }
-- 
2.43.0


From 9da8c155d8180a286621d71ec3e953bb80f70132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:30 +0000
Subject: [PATCH 59/59] fix: damaged statements of a program file crashed the
 commands which read them

---
 zokrates_ast/src/common/position.rs |  2 +-
 zokrates_ast/src/ir/serialize.rs    | 14 ++++++++++++++
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/zokrates_ast/src/common/position.rs b/zokrates_ast/src/common/position.rs
index a817f07..925f1f9 100644
--- a/zokrates_ast/src/common/position.rs
+++ b/zokrates_ast/src/common/position.rs
@@ -90,7 +90,7 @@ impl Span {
     pub fn resolve(self, map: &ModuleMap) -> ResolvedSpan {
         match self {
             Span::Source(s) => ResolvedSpan::Source(ResolvedSourceSpan {
-                module: map.modules.get(&s.module).cloned().unwrap(),
+                module: map.modules.get(&s.module).cloned().unwrap_or_default(),
                 from: s.from,
                 to: s.to,
             }),
diff --git a/zokrates_ast/src/ir/serialize.rs b/zokrates_ast/src/ir/serialize.rs
index fc76d3b..df9871f 100644
--- a/zokrates_ast/src/ir/serialize.rs
+++ b/zokrates_ast/src/ir/serialize.rs
@@ -374,6 +374,20 @@ impl<'de, R: Read + Seek>
 
         let statements_deserializer = {
             let section = &header.sections[1];
+            r.seek(std::io::SeekFrom::Start(section.offset))
+                .map_err(|_| String::from("Cannot read statements"))?;
+
+            // statements are streamed by the consumer, who has no way to report an error, so check them beforehand
+            let p = serde_cbor::Deserializer::from_reader(r.by_ref().take(section.length));
+            for s in p.into_iter::<Statement<T>>() {
+                match s {
+                    Ok(Statement::Block(..)) | Err(_) => {
+                        return Err(String::from("Cannot read statements"))
+                    }
+                    Ok(_) => {}
+                }
+            }
+
             r.seek(std::io::SeekFrom::Start(section.offset))
                 .map_err(|_| String::from("Cannot read statements"))?;
 
-- 
2.43.0

