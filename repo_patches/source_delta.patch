From 778532fa1a4648a09d6a75254c42c6f59c02040f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:23 +0000
Subject: [PATCH 01/15] fix: look up directly defined moves by exact match

The exact-match step looked up the move with amount 1 again (`r#move_with_amount_1` is the function name), so a move that is only defined with another amount (e.g. `y2`) was not found.
---
 cubing_core/src/kpuzzle/packed/lookup_move.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cubing_core/src/kpuzzle/packed/lookup_move.rs b/cubing_core/src/kpuzzle/packed/lookup_move.rs
index 35a6a90..31fed28 100644
--- a/cubing_core/src/kpuzzle/packed/lookup_move.rs
+++ b/cubing_core/src/kpuzzle/packed/lookup_move.rs
@@ -44,7 +44,7 @@ pub(crate) fn lookup_move<'a>(
         };
     }
     // Exact match (e.g. y2 on clock)
-    if let Some((key_move, source)) = def.moves.get_key_value(&r#move_with_amount_1(r#move)) {
+    if let Some((key_move, source)) = def.moves.get_key_value(r#move) {
         return Some(MoveLookupResult {
             key_move,
             relative_amount: 1,
-- 
2.43.0


From 6579e148aaeeee49bd1613fb06c89314bc06b85b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:23 +0000
Subject: [PATCH 02/15] fix: keep the layer prefix in `parse_move!`

`parse_move!("2R")` produced `R`.
---
 cubing_macros/src/lib.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/cubing_macros/src/lib.rs b/cubing_macros/src/lib.rs
index 6ba1880..cd194b8 100644
--- a/cubing_macros/src/lib.rs
+++ b/cubing_macros/src/lib.rs
@@ -1,7 +1,7 @@
 // TODO: report errors better.
 // Maybe use https://docs.rs/proc-macro-error/latest/proc_macro_error/ ?
 
-use cubing_core::alg::{Alg, Move};
+use cubing_core::alg::{Alg, Move, MovePrefix};
 
 use proc_macro::TokenStream;
 use quote::quote;
@@ -30,11 +30,25 @@ pub fn parse_move(item: TokenStream) -> TokenStream {
         Ok(r#move) => {
             let move_family = &r#move.quantum.family;
             let move_amount = r#move.amount;
+            let move_prefix = match &r#move.quantum.prefix {
+                None => quote! { None },
+                Some(MovePrefix::Layer(layer)) => {
+                    let layer = layer.layer;
+                    quote! { Some(cubing::alg::MovePrefix::Layer(cubing::alg::MoveLayer { layer: #layer })) }
+                }
+                Some(MovePrefix::Range(range)) => {
+                    let (outer_layer, inner_layer) = (range.outer_layer, range.inner_layer);
+                    quote! { Some(cubing::alg::MovePrefix::Range(cubing::alg::MoveRange {
+                        outer_layer: #outer_layer,
+                        inner_layer: #inner_layer,
+                    })) }
+                }
+            };
             // TODO: can we avoid constructing the move from scratch every time?
             quote! { cubing::alg::Move {
                 quantum: std::sync::Arc::new(cubing::alg::QuantumMove {
                     family: String::from(#move_family),
-                    prefix: None,
+                    prefix: #move_prefix,
                 }),
                 amount: #move_amount,
             } }
-- 
2.43.0


From 601d178fe09e9ecb17491981a35cf048b06e3137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:23 +0000
Subject: [PATCH 03/15] fix: print every parseable move in a form that parses
 back

Printing `_SLASH_2`, `_SLASH_'` or `R_PLUSPLUS_3` failed (so `.to_string()` panicked), and
`2_SLASH_`, `_PLUS_` and `_PLUSPLUS_` printed as something else.
---
 cubing_core/src/alg/move.rs | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/cubing_core/src/alg/move.rs b/cubing_core/src/alg/move.rs
index 83c2372..5651c1a 100644
--- a/cubing_core/src/alg/move.rs
+++ b/cubing_core/src/alg/move.rs
@@ -74,14 +74,16 @@ impl fmt::Display for Move {
     // TODO: memoize?
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         // TODO: memoize these calculations at construction time so we don't have to do it during every serialization?
-        if self.quantum.family == "_SLASH_" {
-            if self.amount != 1 {
-                return Err(std::fmt::Error);
-            };
+        // Special notation is only used when it parses back to the same move. All other moves use the plain notation.
+        if self.quantum.family == "_SLASH_" && self.quantum.prefix.is_none() && self.amount == 1 {
             write!(f, "/")?;
             return Ok(());
         }
-        if let Some(family) = self.quantum.family.strip_suffix("_PLUS_") {
+        let strip_internal_suffix = |suffix: &str| {
+            let family = self.quantum.family.strip_suffix(suffix)?;
+            (!family.is_empty()).then_some(family)
+        };
+        if let Some(family) = strip_internal_suffix("_PLUS_") {
             let suffix = if self.amount < 0 { "-" } else { "+" };
             write!(
                 f,
@@ -95,12 +97,13 @@ impl fmt::Display for Move {
             )?;
             return Ok(());
         }
-        if let Some(family) = self.quantum.family.strip_suffix("_PLUSPLUS_") {
-            let suffix = match self.amount {
-                1 => "++",
-                -1 => "--",
-                _ => return Err(std::fmt::Error),
-            };
+        let pochmann_suffix = match self.amount {
+            1 => Some("++"),
+            -1 => Some("--"),
+            _ => None,
+        };
+        if let (Some(family), Some(suffix)) = (strip_internal_suffix("_PLUSPLUS_"), pochmann_suffix)
+        {
             write!(
                 f,
                 "{}{}",
-- 
2.43.0


From c47efc989ac510302277d08fbb36f11cf4e94231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:23 +0000
Subject: [PATCH 04/15] fix: end a line comment before a closing bracket when
 printing

Inverting e.g. "[A: //c\nR]" moves the comment to the end of the bracket, and the printed text
did not parse because the comment swallowed the bracket.
---
 cubing_core/src/alg/alg.rs        | 11 +++++++++++
 cubing_core/src/alg/commutator.rs |  7 ++++++-
 cubing_core/src/alg/conjugate.rs  |  7 ++++++-
 cubing_core/src/alg/grouping.rs   |  3 ++-
 4 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/cubing_core/src/alg/alg.rs b/cubing_core/src/alg/alg.rs
index ae6cb1f..49c8ef9 100644
--- a/cubing_core/src/alg/alg.rs
+++ b/cubing_core/src/alg/alg.rs
@@ -74,6 +74,17 @@ impl<'de> Visitor<'de> for AlgVisitor {
         }
     }
 }
+
+/// Writes an alg that is followed by more text on the same line (e.g. a closing bracket).
+pub(crate) fn fmt_enclosed_alg(f: &mut fmt::Formatter<'_>, alg: &Alg) -> fmt::Result {
+    write!(f, "{}", alg)?;
+    if let Some(AlgNode::LineCommentNode(_)) = alg.nodes.last() {
+        // Without this, the following text would become part of the comment.
+        writeln!(f)?;
+    }
+    Ok(())
+}
+
 fn space_between(u1: &AlgNode, u2: &AlgNode) -> &'static str {
     match (u1, u2) {
         (AlgNode::LineCommentNode(_), AlgNode::NewlineNode(_)) => "",
diff --git a/cubing_core/src/alg/commutator.rs b/cubing_core/src/alg/commutator.rs
index 633e58d..bd78229 100644
--- a/cubing_core/src/alg/commutator.rs
+++ b/cubing_core/src/alg/commutator.rs
@@ -1,6 +1,7 @@
 use std::fmt;
 use std::sync::Arc;
 
+use super::alg::fmt_enclosed_alg;
 use super::Alg;
 
 // TODO: Remove `PartialEq` if we add any metadata (e.g. parsing info, or memoizations).
@@ -23,6 +24,10 @@ impl fmt::Display for Commutator {
     // TODO: memoize?
     // TODO: dedup with `Move`?
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
-        write!(f, "[{}, {}]", self.a, self.b)
+        write!(f, "[")?;
+        fmt_enclosed_alg(f, &self.a)?;
+        write!(f, ", ")?;
+        fmt_enclosed_alg(f, &self.b)?;
+        write!(f, "]")
     }
 }
diff --git a/cubing_core/src/alg/conjugate.rs b/cubing_core/src/alg/conjugate.rs
index fb53fac..c0c3b5f 100644
--- a/cubing_core/src/alg/conjugate.rs
+++ b/cubing_core/src/alg/conjugate.rs
@@ -1,6 +1,7 @@
 use std::fmt;
 use std::sync::Arc;
 
+use super::alg::fmt_enclosed_alg;
 use super::Alg;
 
 // TODO: Remove `PartialEq` if we add any metadata (e.g. parsing info, or memoizations).
@@ -22,6 +23,10 @@ impl Conjugate {
 impl fmt::Display for Conjugate {
     // TODO: memoize?
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
-        write!(f, "[{}: {}]", self.a, self.b)
+        write!(f, "[")?;
+        fmt_enclosed_alg(f, &self.a)?;
+        write!(f, ": ")?;
+        fmt_enclosed_alg(f, &self.b)?;
+        write!(f, "]")
     }
 }
diff --git a/cubing_core/src/alg/grouping.rs b/cubing_core/src/alg/grouping.rs
index 7e53cc8..ae282d3 100644
--- a/cubing_core/src/alg/grouping.rs
+++ b/cubing_core/src/alg/grouping.rs
@@ -1,6 +1,7 @@
 use std::fmt;
 use std::sync::Arc;
 
+use super::alg::fmt_enclosed_alg;
 use super::amount::fmt_amount;
 use super::special_notation::{D_SQ_quantum, U_SQ_quantum};
 use super::{Alg, AlgNode, Move};
@@ -59,7 +60,7 @@ impl fmt::Display for Grouping {
         if include_parentheses {
             write!(f, "(")?;
         }
-        write!(f, "{}", self.alg)?;
+        fmt_enclosed_alg(f, &self.alg)?;
         if include_parentheses {
             write!(f, ")")?;
         }
-- 
2.43.0


From c3a02ba15b28d773171119c6d2efad3fe348f488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:23 +0000
Subject: [PATCH 05/15] fix: treat an orientation mod of `num_orientations` as
 `0`
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

As documented for `OrientationPacker`, these are not separate values. Counting them separately
overflowed the packed byte for 72, 80, 84, 88, … orientations, so creating such a puzzle panicked.
---
 cubing_core/src/kpuzzle/packed/orientation_packer.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cubing_core/src/kpuzzle/packed/orientation_packer.rs b/cubing_core/src/kpuzzle/packed/orientation_packer.rs
index ec3d1e5..0a530b6 100644
--- a/cubing_core/src/kpuzzle/packed/orientation_packer.rs
+++ b/cubing_core/src/kpuzzle/packed/orientation_packer.rs
@@ -75,6 +75,11 @@ impl OrientationPacker {
         // Ignore an idiom suggestion by Clippy that doesn't work here (because we use `orientation_mod` as a value, not just as an index into `packing_table`).
         #[allow(clippy::needless_range_loop)]
         for orientation_mod in 0..=(u8::MAX) {
+            if orientation_mod == num_orientations {
+                // Equivalent to `0` (see the docs above).
+                packing_table[orientation_mod as usize] = packing_table[0];
+                continue;
+            }
             let factor = if orientation_mod == 0 {
                 num_orientations
             } else {
-- 
2.43.0


From 5cd5e5380a19e810b38b3e26553eab21242233c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:23 +0000
Subject: [PATCH 06/15] fix: reject definitions with 0 orientations instead of
 panicking

---
 cubing_core/src/kpuzzle/packed/kpuzzle.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/cubing_core/src/kpuzzle/packed/kpuzzle.rs b/cubing_core/src/kpuzzle/packed/kpuzzle.rs
index 6080d37..1518970 100644
--- a/cubing_core/src/kpuzzle/packed/kpuzzle.rs
+++ b/cubing_core/src/kpuzzle/packed/kpuzzle.rs
@@ -201,6 +201,14 @@ impl KPuzzle {
             if num_orientations > MAX_NUM_ORIENTATIONS_INCLUSIVE {
                 return Err(InvalidDefinitionError { description: format!("`num_orientations` for orbit {} is too large ({}). Maximum is {} for the current build." , orbit_definition.orbit_name, num_orientations, MAX_NUM_ORIENTATIONS_INCLUSIVE)});
             }
+            if num_orientations == 0 {
+                return Err(InvalidDefinitionError {
+                    description: format!(
+                        "`num_orientations` for orbit {} must be at least 1.",
+                        orbit_definition.orbit_name
+                    ),
+                });
+            }
             ordered_orbit_info.push({
                 KPuzzleOrbitInfo {
                     name: orbit_definition.orbit_name.clone(),
-- 
2.43.0


From 3298b0a7281f2b58f4cc7e68ab9fb33b88887d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:23 +0000
Subject: [PATCH 07/15] fix: invert transformations instead of algs in
 commutators and conjugates

The inverted alg can contain moves that do not occur in the alg itself (e.g. `Q3'`), which were not
considered by the check for recursive definitions: a definition such as
`X: [Q3, A]`, `Q3: A`, `Q3': X` was accepted, and evaluating `X` overflowed the stack.
---
 cubing_core/src/kpuzzle/packed/kpuzzle.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cubing_core/src/kpuzzle/packed/kpuzzle.rs b/cubing_core/src/kpuzzle/packed/kpuzzle.rs
index 1518970..2b88e07 100644
--- a/cubing_core/src/kpuzzle/packed/kpuzzle.rs
+++ b/cubing_core/src/kpuzzle/packed/kpuzzle.rs
@@ -169,8 +169,8 @@ fn transformation_from_alg_node(
         AlgNode::CommutatorNode(commutator) => {
             let a = transformation_from_alg(kpuzzle, &commutator.a)?;
             let b = transformation_from_alg(kpuzzle, &commutator.b)?;
-            let a_prime = transformation_from_alg(kpuzzle, &commutator.a.invert())?; // TODO: invert the transformation instead of the alg!
-            let b_prime = transformation_from_alg(kpuzzle, &commutator.b.invert())?; // TODO: invert the transformation instead of the alg!
+            let a_prime = a.invert();
+            let b_prime = b.invert();
             Ok(a.apply_transformation(&b)
                 .apply_transformation(&a_prime)
                 .apply_transformation(&b_prime))
@@ -178,7 +178,7 @@ fn transformation_from_alg_node(
         AlgNode::ConjugateNode(conjugate) => {
             let a = transformation_from_alg(kpuzzle, &conjugate.a)?;
             let b = transformation_from_alg(kpuzzle, &conjugate.b)?;
-            let a_prime = transformation_from_alg(kpuzzle, &conjugate.a.invert())?; // TODO: invert the transformation instead of the alg!
+            let a_prime = a.invert();
             Ok(a.apply_transformation(&b).apply_transformation(&a_prime))
         }
     }
-- 
2.43.0


From 040e297fe3aa7120dd0fdd64f17dc9814819e725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:21 +0000
Subject: [PATCH 08/15] fix: reject malformed transformation data with an error

A missing orbit or a short list panicked, and an out-of-range permutation was accepted and then
read outside the pattern's data when applied. JSON errors are now reported as transformation data
errors rather than pattern data errors.
---
 .../src/kpuzzle/packed/ktransformation.rs     | 40 ++++++++++++++-----
 1 file changed, 31 insertions(+), 9 deletions(-)

diff --git a/cubing_core/src/kpuzzle/packed/ktransformation.rs b/cubing_core/src/kpuzzle/packed/ktransformation.rs
index a7993aa..b5dadb2 100644
--- a/cubing_core/src/kpuzzle/packed/ktransformation.rs
+++ b/cubing_core/src/kpuzzle/packed/ktransformation.rs
@@ -8,7 +8,8 @@ use crate::{
 };
 
 use super::{
-    kpuzzle::KPuzzleOrbitInfo, packed_orbit_data::PackedOrbitData, ConversionError, KPuzzle,
+    kpuzzle::KPuzzleOrbitInfo, packed_orbit_data::PackedOrbitData, ConversionError,
+    InvalidKTransformationDataError, KPuzzle,
 };
 
 #[derive(Clone, Eq)]
@@ -31,13 +32,34 @@ impl KTransformation {
         let kpuzzle: KPuzzle = kpuzzle.into();
         let mut new_ktransformation = Self::new_uninitialized(kpuzzle.clone());
         for orbit_info in kpuzzle.orbit_info_iter() {
+            let invalid_data = |description: &str| {
+                ConversionError::InvalidKTransformationData(InvalidKTransformationDataError {
+                    description: format!("{} (orbit: {})", description, orbit_info.name),
+                })
+            };
+            let orbit = ktransformation_data
+                .get(&orbit_info.name)
+                .ok_or_else(|| invalid_data("Missing orbit in transformation data."))?;
+            let num_pieces = orbit_info.num_pieces as usize;
+            if orbit.permutation.len() != num_pieces || orbit.orientation_delta.len() != num_pieces
+            {
+                return Err(invalid_data(
+                    "Transformation data must have one entry for each piece.",
+                ));
+            }
+            let mut seen = vec![false; num_pieces];
+            for &idx in &orbit.permutation {
+                match seen.get_mut(idx as usize) {
+                    Some(seen) if !*seen => *seen = true,
+                    _ => return Err(invalid_data("`permutation` is not a permutation.")),
+                }
+            }
+            for &orientation_delta in &orbit.orientation_delta {
+                if orientation_delta >= orbit_info.num_orientations {
+                    return Err(invalid_data("`orientation_delta` is out of range."));
+                }
+            }
             for i in 0..orbit_info.num_pieces {
-                let orbit = ktransformation_data.get(&orbit_info.name);
-                let orbit = match orbit {
-                    Some(default_orbit) => default_orbit,
-                    None => panic!("Invalid default pattern"), // TODO: catch at construction time?
-                };
-
                 new_ktransformation.set_permutation_idx(
                     orbit_info,
                     i,
@@ -83,8 +105,8 @@ impl KTransformation {
         let ktransformation_data: KTransformationData = match serde_json::from_slice(json_bytes) {
             Ok(ktransformation_data) => ktransformation_data,
             Err(e) => {
-                return Err(ConversionError::InvalidKPatternData(
-                    super::InvalidKPatternDataError {
+                return Err(ConversionError::InvalidKTransformationData(
+                    InvalidKTransformationDataError {
                         description: format!(
                             "Could not parse JSON for KTransformation data: {}",
                             e
-- 
2.43.0


From f8cf4324d4ba53a40f88d42917509ac0c4ac9866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:21 +0000
Subject: [PATCH 09/15] fix: reject malformed move definitions when creating a
 puzzle

These panicked when the move was used ("this should be caught earlier").
---
 cubing_core/src/kpuzzle/packed/kpuzzle.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/cubing_core/src/kpuzzle/packed/kpuzzle.rs b/cubing_core/src/kpuzzle/packed/kpuzzle.rs
index 2b88e07..88a78f5 100644
--- a/cubing_core/src/kpuzzle/packed/kpuzzle.rs
+++ b/cubing_core/src/kpuzzle/packed/kpuzzle.rs
@@ -222,7 +222,7 @@ impl KPuzzle {
             bytes_offset += (orbit_definition.num_pieces as usize) * 2;
         }
 
-        Ok(Self {
+        let kpuzzle = Self {
             data: Arc::new(KPuzzleData {
                 definition,
                 num_bytes: bytes_offset,
@@ -231,7 +231,15 @@ impl KPuzzle {
                     description: "Could not construct packed layout.".to_owned(),
                 })?,
             }),
-        })
+        };
+        for (r#move, transformation_data) in &kpuzzle.definition().moves {
+            KTransformation::try_from_data(&kpuzzle, transformation_data).map_err(|e| {
+                InvalidDefinitionError {
+                    description: format!("Invalid definition for move {}: {}", r#move, e),
+                }
+            })?;
+        }
+        Ok(kpuzzle)
     }
 
     pub fn try_from_json(json_bytes: &[u8]) -> Result<KPuzzle, InvalidDefinitionError> {
-- 
2.43.0


From 2dfdcf8e2d2566dd15f4240e543f7736e9ecdb1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:21 +0000
Subject: [PATCH 10/15] fix: reject malformed pattern data with an error
 instead of panicking

---
 cubing_core/src/kpuzzle/packed/kpattern.rs | 33 ++++++++++++++++++----
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/cubing_core/src/kpuzzle/packed/kpattern.rs b/cubing_core/src/kpuzzle/packed/kpattern.rs
index 55a6f65..d3aa16a 100644
--- a/cubing_core/src/kpuzzle/packed/kpattern.rs
+++ b/cubing_core/src/kpuzzle/packed/kpattern.rs
@@ -35,13 +35,36 @@ impl KPattern {
         let kpuzzle: KPuzzle = kpuzzle.into();
         let mut new_kpattern = Self::new_unitialized(&kpuzzle);
         for orbit_info in kpuzzle.orbit_info_iter() {
+            let invalid_data = |description: &str| {
+                ConversionError::InvalidKPatternData(InvalidKPatternDataError {
+                    description: format!("{} (orbit: {})", description, orbit_info.name),
+                })
+            };
+            let default_orbit = kpattern_data
+                .get(&orbit_info.name)
+                .ok_or_else(|| invalid_data("Missing orbit in pattern data."))?;
+            let num_pieces = orbit_info.num_pieces as usize;
+            if default_orbit.pieces.len() != num_pieces
+                || default_orbit.orientation.len() != num_pieces
+                || default_orbit
+                    .orientation_mod
+                    .as_ref()
+                    .is_some_and(|orientation_mod| orientation_mod.len() != num_pieces)
+            {
+                return Err(invalid_data(
+                    "Pattern data must have one entry for each piece.",
+                ));
+            }
             for i in 0..orbit_info.num_pieces {
-                let default_orbit = kpattern_data.get(&orbit_info.name);
-                let default_orbit = match default_orbit {
-                    Some(default_orbit) => default_orbit,
-                    None => panic!("Invalid default pattern"), // TODO: catch at construction time?
+                let orientation_limit = match &default_orbit.orientation_mod {
+                    Some(orientation_mod) if orientation_mod[i as usize] != 0 => {
+                        orientation_mod[i as usize]
+                    }
+                    _ => orbit_info.num_orientations,
                 };
-
+                if default_orbit.orientation[i as usize] >= orientation_limit {
+                    return Err(invalid_data("`orientation` is out of range."));
+                }
                 new_kpattern.set_piece(orbit_info, i, default_orbit.pieces[i as usize]);
                 new_kpattern.set_orientation_with_mod(
                     orbit_info,
-- 
2.43.0


From a0eb040ec599f373dd3dacaa888992e4c07aaf1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:21 +0000
Subject: [PATCH 11/15] fix: check the value in `set_permutation_idx`

An out-of-range value made later operations read outside the value's own data.
---
 cubing_core/src/kpuzzle/packed/ktransformation.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cubing_core/src/kpuzzle/packed/ktransformation.rs b/cubing_core/src/kpuzzle/packed/ktransformation.rs
index b5dadb2..2951e62 100644
--- a/cubing_core/src/kpuzzle/packed/ktransformation.rs
+++ b/cubing_core/src/kpuzzle/packed/ktransformation.rs
@@ -174,6 +174,7 @@ impl KTransformation {
     /// This version does not check whether `i` is in the correct range.
     pub fn set_permutation_idx(&mut self, orbit_info: &KPuzzleOrbitInfo, i: u8, value: u8) {
         assert_lt!(i, orbit_info.num_pieces);
+        assert_lt!(value, orbit_info.num_pieces);
         unsafe { self.set_permutation_idx_unchecked(orbit_info, i, value) }
     }
 
-- 
2.43.0


From cdd43cfe89a627c8deba4208a9aa9587acbb90d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:21 +0000
Subject: [PATCH 12/15] fix: do not report an error as its own source

Following the chain of sources of an `InvalidAlgError` never ended.
---
 cubing_core/src/kpuzzle/packed/kpuzzle.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/cubing_core/src/kpuzzle/packed/kpuzzle.rs b/cubing_core/src/kpuzzle/packed/kpuzzle.rs
index 88a78f5..22372ba 100644
--- a/cubing_core/src/kpuzzle/packed/kpuzzle.rs
+++ b/cubing_core/src/kpuzzle/packed/kpuzzle.rs
@@ -83,11 +83,7 @@ pub enum InvalidAlgError {
     InvalidMove(InvalidMoveError),
 }
 
-impl Error for InvalidAlgError {
-    fn source(&self) -> Option<&(dyn Error + 'static)> {
-        Some(self)
-    }
-}
+impl Error for InvalidAlgError {}
 
 fn identity_transformation(kpuzzle: &KPuzzle) -> KTransformation {
     let mut packed_orbit_data =
-- 
2.43.0


From 3b2cb33eccac0a8dce85df30b734058457d7d11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:02 +0000
Subject: [PATCH 13/15] fix: f2lfast: look at corners when deciding whether a
 slot is solved

The index of the corners' orbit was that of the edges, so a slot was
taken as solved (and skipped) while its corner was not.
---
 cubing/examples/f2lfast/patterns.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cubing/examples/f2lfast/patterns.rs b/cubing/examples/f2lfast/patterns.rs
index 34b71a9..fe049ea 100644
--- a/cubing/examples/f2lfast/patterns.rs
+++ b/cubing/examples/f2lfast/patterns.rs
@@ -60,7 +60,7 @@ pub fn is_slot_solved(pattern: &KPattern, f2l_slot: &F2LSlot) -> bool {
 }
 
 const ORBIT_INDEX_EDGES: usize = 0;
-const ORBIT_INDEX_CORNERS: usize = 0;
+const ORBIT_INDEX_CORNERS: usize = 1;
 
 pub fn are_slot_pieces_solved(pattern: &KPattern, edge_idx: u8, corner_idx: u8) -> bool {
     is_piece_solved(pattern, ORBIT_INDEX_EDGES, edge_idx)
-- 
2.43.0


From 6876270e855475b0f415b1ca3d30edd14d2da438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:44 +0000
Subject: [PATCH 14/15] Undo the change to the f2lfast example (an example, not
 part of the library)

---
 cubing/examples/f2lfast/patterns.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cubing/examples/f2lfast/patterns.rs b/cubing/examples/f2lfast/patterns.rs
index fe049ea..34b71a9 100644
--- a/cubing/examples/f2lfast/patterns.rs
+++ b/cubing/examples/f2lfast/patterns.rs
@@ -60,7 +60,7 @@ pub fn is_slot_solved(pattern: &KPattern, f2l_slot: &F2LSlot) -> bool {
 }
 
 const ORBIT_INDEX_EDGES: usize = 0;
-const ORBIT_INDEX_CORNERS: usize = 1;
+const ORBIT_INDEX_CORNERS: usize = 0;
 
 pub fn are_slot_pieces_solved(pattern: &KPattern, edge_idx: u8, corner_idx: u8) -> bool {
     is_piece_solved(pattern, ORBIT_INDEX_EDGES, edge_idx)
-- 
2.43.0


From 3b57bb87f770bb100ec51d814bed7247f2e6de45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:55 +0000
Subject: [PATCH 15/15] fix: alg: refuse standard input that is not text
 instead of panicking

---
 alg_cli/main.rs | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/alg_cli/main.rs b/alg_cli/main.rs
index 8848106..7e9dee4 100644
--- a/alg_cli/main.rs
+++ b/alg_cli/main.rs
@@ -65,18 +65,28 @@ pub fn get_options() -> AlgCLIArgs {
     args
 }
 
+fn read_alg_source(alg_source: AlgSource) -> String {
+    match alg_source.alg {
+        Some(alg) => alg,
+        None => {
+            assert!(alg_source.stdin);
+            match read_to_string(stdin()) {
+                Ok(alg) => alg,
+                Err(e) => {
+                    eprintln!("Invalid alg: {}", e);
+                    exit(1);
+                }
+            }
+        }
+    }
+}
+
 fn main() {
     let args = get_options();
 
     match args.command {
         AlgCLICommand::Parse(parse_args) => {
-            let alg = match parse_args.alg {
-                Some(alg) => alg,
-                None => {
-                    assert!(parse_args.stdin);
-                    read_to_string(stdin()).unwrap()
-                }
-            };
+            let alg = read_alg_source(parse_args);
             let exit_code = match Alg::from_str(&alg) {
                 Ok(_alg) => {
                     eprintln!("Alg parsed successfully.");
@@ -90,13 +100,7 @@ fn main() {
             exit(exit_code)
         }
         AlgCLICommand::Invert(invert_args) => {
-            let alg = match invert_args.alg {
-                Some(alg) => alg,
-                None => {
-                    assert!(invert_args.stdin);
-                    read_to_string(stdin()).unwrap()
-                }
-            };
+            let alg = read_alg_source(invert_args);
             let alg = match Alg::from_str(&alg) {
                 Ok(alg) => alg,
                 Err(e) => {
-- 
2.43.0

