From 782341d84727b2a8c716fb6dbc91457ff997fb54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:33:17 +0000
Subject: [PATCH 01/21] fix: attribute keywords no longer swallow the start of
 a type name

A type attribute whose dialect begins with true/false/unit (e.g.
`units.t`) was printed verbatim but parsed as the keyword followed by
garbage, so the printed module could not be read back.
---
 crates/trunk-ir/src/parser/raw.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/crates/trunk-ir/src/parser/raw.rs b/crates/trunk-ir/src/parser/raw.rs
index 64836ad..d563cea 100644
--- a/crates/trunk-ir/src/parser/raw.rs
+++ b/crates/trunk-ir/src/parser/raw.rs
@@ -4,7 +4,8 @@
 //! It is shared by both the Salsa IR builder and the Arena IR builder.
 
 use winnow::ascii;
-use winnow::combinator::{alt, delimited, opt, preceded, repeat, separated};
+use winnow::combinator::{alt, delimited, not, opt, preceded, repeat, separated, terminated};
+use winnow::error::{ContextError, ErrMode};
 use winnow::prelude::*;
 use winnow::token::{any, one_of, take, take_while};
 
@@ -300,13 +301,24 @@ pub fn raw_type<'a>(input: &mut &'a str) -> ModalResult<RawType<'a>> {
     })
 }
 
+/// Parse a bare keyword: `word` not continued by an identifier character or by
+/// `.`, so that a type such as `unit_test.t` is not read as the keyword `unit`.
+fn keyword<'a>(word: &'static str) -> impl Parser<&'a str, &'a str, ErrMode<ContextError>> {
+    terminated(
+        word,
+        not(one_of(|c: char| {
+            c.is_ascii_alphanumeric() || c == '_' || c == '.'
+        })),
+    )
+}
+
 /// Parse an attribute value.
 pub fn raw_attr_value<'a>(input: &mut &'a str) -> ModalResult<RawAttribute<'a>> {
     alt((
         // Keywords
-        "true".value(RawAttribute::Bool(true)),
-        "false".value(RawAttribute::Bool(false)),
-        "unit".value(RawAttribute::Unit),
+        keyword("true").value(RawAttribute::Bool(true)),
+        keyword("false").value(RawAttribute::Bool(false)),
+        keyword("unit").value(RawAttribute::Unit),
         // Location: loc("path" start:end)
         raw_location_attr,
         // Bytes: b"..."
-- 
2.43.0


From 51a6bc296b1fb27d45758858b38026d06c4b11f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:33:17 +0000
Subject: [PATCH 02/21] fix: type alias names with quotes or a leading digit
 round-trip

The alias-definition lookahead stopped at the first quote even when it
was escaped, and names starting with a digit were printed bare although
the parser only accepts identifiers there.
---
 crates/trunk-ir/src/parser/raw.rs | 11 ++++++-----
 crates/trunk-ir/src/printer.rs    |  7 ++++---
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/crates/trunk-ir/src/parser/raw.rs b/crates/trunk-ir/src/parser/raw.rs
index d563cea..70f44cf 100644
--- a/crates/trunk-ir/src/parser/raw.rs
+++ b/crates/trunk-ir/src/parser/raw.rs
@@ -650,12 +650,13 @@ fn is_type_alias_def(input: &str) -> bool {
         return false;
     }
     let rest = &input[1..];
-    let after_name = if let Some(quoted) = rest.strip_prefix('"') {
-        // Quoted: skip to closing quote (simplified — no escape handling needed for lookahead)
-        match quoted.find('"') {
-            Some(end) => &quoted[end + 1..],
-            None => return false,
+    let after_name = if rest.starts_with('"') {
+        // Quoted: consume the whole literal, escapes included
+        let mut after_literal = rest;
+        if string_lit.parse_next(&mut after_literal).is_err() {
+            return false;
         }
+        after_literal
     } else {
         // Bare ident
         let after_ident = rest.trim_start_matches(|c: char| c.is_ascii_alphanumeric() || c == '_');
diff --git a/crates/trunk-ir/src/printer.rs b/crates/trunk-ir/src/printer.rs
index 076eace..a724d5c 100644
--- a/crates/trunk-ir/src/printer.rs
+++ b/crates/trunk-ir/src/printer.rs
@@ -434,10 +434,11 @@ pub(crate) fn write_escaped_string(f: &mut dyn Write, s: &str) -> fmt::Result {
     Ok(())
 }
 
-/// Write a type alias name with `!` prefix. Quotes if name contains non-ident chars.
+/// Write a type alias name with `!` prefix. Quotes if name is not a bare identifier.
 fn write_type_alias_name(f: &mut dyn Write, name: &str) -> fmt::Result {
-    let needs_quoting =
-        name.is_empty() || !name.chars().all(|c| c.is_ascii_alphanumeric() || c == '_');
+    let needs_quoting = name.is_empty()
+        || name.starts_with(|c: char| c.is_ascii_digit())
+        || !name.chars().all(|c| c.is_ascii_alphanumeric() || c == '_');
     if needs_quoting {
         f.write_str("!\"")?;
         write_escaped_string(f, name)?;
-- 
2.43.0


From 98375533d2ba26cc085a8b5217ad5eb7d3bfc5aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:33:17 +0000
Subject: [PATCH 03/21] fix: infinite and NaN float attributes round-trip
 through the text format

They were printed as inf/-inf/NaN, which the parser did not accept, and a
NaN's payload was lost.
---
 crates/trunk-ir/src/parser/raw.rs | 16 +++++++++++++
 crates/trunk-ir/src/printer.rs    | 37 +++++++++++++++----------------
 2 files changed, 34 insertions(+), 19 deletions(-)

diff --git a/crates/trunk-ir/src/parser/raw.rs b/crates/trunk-ir/src/parser/raw.rs
index 70f44cf..b3a9277 100644
--- a/crates/trunk-ir/src/parser/raw.rs
+++ b/crates/trunk-ir/src/parser/raw.rs
@@ -197,6 +197,20 @@ pub(crate) fn float_with_dot(input: &mut &str) -> ModalResult<f64> {
         .map_err(|_| winnow::error::ErrMode::Backtrack(winnow::error::ContextError::new()))
 }
 
+/// Parse an infinity or NaN as the printer spells it: `inf`, `-inf`, `NaN`, or
+/// `0x` followed by the 16 hex digits of the bit pattern.
+fn non_finite_float(input: &mut &str) -> ModalResult<f64> {
+    alt((
+        keyword("inf").value(f64::INFINITY),
+        keyword("-inf").value(f64::NEG_INFINITY),
+        keyword("NaN").value(f64::NAN),
+        preceded("0x", take_while(16..=16, |c: char| c.is_ascii_hexdigit()))
+            .try_map(|hex: &str| u64::from_str_radix(hex, 16))
+            .map(f64::from_bits),
+    ))
+    .parse_next(input)
+}
+
 /// Parse a string literal: "content"
 pub(crate) fn string_lit(input: &mut &str) -> ModalResult<String> {
     '"'.parse_next(input)?;
@@ -335,6 +349,8 @@ pub fn raw_attr_value<'a>(input: &mut &'a str) -> ModalResult<RawAttribute<'a>>
         )
         .map(RawAttribute::List),
         alt((
+            // Infinities and NaNs (inf, -inf, NaN, 0x7ff8000000000001)
+            non_finite_float.map(RawAttribute::Float),
             // Float (requires dot: 3.14, -1.0)
             float_with_dot.map(RawAttribute::Float),
             // Integer (42, -1)
diff --git a/crates/trunk-ir/src/printer.rs b/crates/trunk-ir/src/printer.rs
index a724d5c..9550584 100644
--- a/crates/trunk-ir/src/printer.rs
+++ b/crates/trunk-ir/src/printer.rs
@@ -134,15 +134,7 @@ impl<'a> PrintState<'a> {
             Attribute::Unit => f.write_str("unit"),
             Attribute::Bool(b) => write!(f, "{b}"),
             Attribute::Int(v) => write!(f, "{v}"),
-            Attribute::FloatBits(bits) => {
-                let v = f64::from_bits(*bits);
-                let s = format!("{v}");
-                f.write_str(&s)?;
-                if v.is_finite() && !s.contains('.') && !s.contains('e') && !s.contains('E') {
-                    f.write_str(".0")?;
-                }
-                Ok(())
-            }
+            Attribute::FloatBits(bits) => write_float_bits(f, *bits),
             Attribute::String(s) => {
                 f.write_char('"')?;
                 write_escaped_string(f, s)?;
@@ -361,16 +353,7 @@ fn write_attribute(ctx: &IrContext, f: &mut impl Write, attr: &Attribute) -> fmt
         Attribute::Unit => f.write_str("unit"),
         Attribute::Bool(b) => write!(f, "{b}"),
         Attribute::Int(v) => write!(f, "{v}"),
-        Attribute::FloatBits(bits) => {
-            let v = f64::from_bits(*bits);
-            let s = format!("{v}");
-            f.write_str(&s)?;
-            // Ensure decimal point for finite whole numbers (don't corrupt inf/NaN)
-            if v.is_finite() && !s.contains('.') && !s.contains('e') && !s.contains('E') {
-                f.write_str(".0")?;
-            }
-            Ok(())
-        }
+        Attribute::FloatBits(bits) => write_float_bits(f, *bits),
         Attribute::String(s) => {
             f.write_char('"')?;
             write_escaped_string(f, s)?;
@@ -402,6 +385,22 @@ fn write_attribute(ctx: &IrContext, f: &mut impl Write, attr: &Attribute) -> fmt
     }
 }
 
+/// Write a float literal. Infinities and the default NaN are spelled `inf`,
+/// `-inf` and `NaN`; any other NaN is written as its bit pattern.
+fn write_float_bits(f: &mut dyn Write, bits: u64) -> fmt::Result {
+    let v = f64::from_bits(bits);
+    if v.is_nan() && bits != f64::NAN.to_bits() {
+        return write!(f, "{bits:#018x}");
+    }
+    let s = format!("{v}");
+    f.write_str(&s)?;
+    // Ensure decimal point for finite whole numbers (don't corrupt inf/NaN)
+    if v.is_finite() && !s.contains('.') && !s.contains('e') && !s.contains('E') {
+        f.write_str(".0")?;
+    }
+    Ok(())
+}
+
 pub(crate) fn write_escaped_bytes(f: &mut dyn Write, bytes: &[u8]) -> fmt::Result {
     for &b in bytes {
         match b {
-- 
2.43.0


From f424d406c2d85802e575c76375124dc318b3c5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:35:02 +0000
Subject: [PATCH 04/21] fix: empty and self-branching single blocks round-trip
 through the text format

The label of a region's only block was elided even when the block is
empty (the text then reads back as a region without blocks, or as an empty
attribute dictionary) or branches to itself (the successor then names a
label that is not in the text).
---
 crates/trunk-ir/src/printer.rs | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/crates/trunk-ir/src/printer.rs b/crates/trunk-ir/src/printer.rs
index 9550584..b067208 100644
--- a/crates/trunk-ir/src/printer.rs
+++ b/crates/trunk-ir/src/printer.rs
@@ -235,13 +235,13 @@ impl<'a, 'ctx> OpPrintHelper<'a, 'ctx> {
             self.state.assign_block_label(block);
         }
 
-        let is_single_block = blocks.len() == 1;
+        let elide_label = blocks.len() == 1 && !needs_label(self.state.ctx, blocks[0]);
 
         for (i, &block) in blocks.iter().enumerate() {
-            if i == 0 && is_single_block {
+            if i == 0 && elide_label {
                 // Single block: elide entry block label entirely
             } else {
-                // Multi-block: print label
+                // Multi-block, or a block that has to be named: print label
                 let indent_str = " ".repeat(indent);
                 let label = self.state.get_block_label(block).to_owned();
                 write!(self.f, "{indent_str}{label}")?;
@@ -824,6 +824,16 @@ fn print_generic_op(
 // Region / Block printing
 // ============================================================================
 
+/// Whether the only block of a region has to be printed with its label.
+///
+/// An empty block would otherwise vanish (`{ }` reads back as no block at all, or
+/// as an empty attribute dictionary), and a block that branches to itself would
+/// refer to a label that is not in the text.
+fn needs_label(ctx: &IrContext, block: BlockRef) -> bool {
+    let ops = &ctx.block(block).ops;
+    ops.is_empty() || ops.iter().any(|&op| ctx.op(op).successors.contains(&block))
+}
+
 fn print_region(
     state: &mut PrintState<'_>,
     f: &mut dyn Write,
@@ -838,7 +848,9 @@ fn print_region(
         state.assign_block_label(block);
     }
 
-    let can_elide_label = blocks.len() == 1 && state.ctx.block_args(blocks[0]).is_empty();
+    let can_elide_label = blocks.len() == 1
+        && state.ctx.block_args(blocks[0]).is_empty()
+        && !needs_label(state.ctx, blocks[0]);
 
     for (i, &block) in blocks.iter().enumerate() {
         if !can_elide_label {
@@ -956,6 +968,11 @@ fn print_module_op(
         for &block in &blocks {
             let block_data = state.ctx.block(block);
             let ops: Vec<_> = block_data.ops.iter().copied().collect();
+            if ops.is_empty() {
+                // An empty body needs a label: `{ }` would read back as no region.
+                let label = state.assign_block_label(block);
+                writeln!(f, "{inner_indent}{label}:")?;
+            }
             for &child_op in &ops {
                 let saved = state.save_counters();
                 state.reset_numbering();
-- 
2.43.0


From 1479420f5b33ab93a8f642bf88f319688e3e8899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:37:40 +0000
Subject: [PATCH 05/21] fix: closure.lambda attributes round-trip behind a
 parameterized return type

The attribute dictionary printed directly after a return type such as
`core.func(...)` was read back as that type's attributes.
---
 crates/tribute-ir/src/dialect/closure.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/crates/tribute-ir/src/dialect/closure.rs b/crates/tribute-ir/src/dialect/closure.rs
index 69c8d74..13dfccf 100644
--- a/crates/tribute-ir/src/dialect/closure.rs
+++ b/crates/tribute-ir/src/dialect/closure.rs
@@ -93,7 +93,9 @@ fn print_closure_lambda(
         h.write_type(return_ty)?;
     }
 
-    // " {key = val, ...}" — attributes (if any)
+    // " {key = val, ...}" — attributes (if any). Behind a parameterized return
+    // type the dictionary would read back as that type's own attributes, so it
+    // is introduced by the `attributes` keyword there.
     let attrs: Vec<(trunk_ir::Symbol, trunk_ir::Attribute)> = h
         .ctx()
         .op(op)
@@ -102,6 +104,11 @@ fn print_closure_lambda(
         .map(|(k, v)| (*k, v.clone()))
         .collect();
     if !attrs.is_empty() {
+        let after_params =
+            return_ty.is_some_and(|return_ty| !h.ctx().types.get(return_ty).params.is_empty());
+        if after_params {
+            write!(h, " attributes")?;
+        }
         write!(h, " {{")?;
         for (i, (key, val)) in attrs.iter().enumerate() {
             if i > 0 {
@@ -178,6 +185,7 @@ fn parse_closure_lambda<'a>(
 
     // " {key = val, ...}" (optional attributes — distinguished from body by lookahead)
     ws.parse_next(input)?;
+    opt(("attributes", ws)).parse_next(input)?;
     let attributes = if starts_attr_dict(input) {
         raw_attr_dict.parse_next(input)?
     } else {
-- 
2.43.0


From ba71ea08bba419c22d308812833455ef239d02d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:15 +0000
Subject: [PATCH 06/21] fix: deep clone remaps operands whose definition is
 cloned after their use

---
 crates/trunk-ir/src/context.rs | 50 ++++++++++++++++++++++++++++++++--
 1 file changed, 48 insertions(+), 2 deletions(-)

diff --git a/crates/trunk-ir/src/context.rs b/crates/trunk-ir/src/context.rs
index fc15b4b..f288f80 100644
--- a/crates/trunk-ir/src/context.rs
+++ b/crates/trunk-ir/src/context.rs
@@ -701,6 +701,33 @@ impl IrContext {
     /// The cloned operation is **not** attached to any block. Use
     /// [`push_op`] or [`clone_op_into_block`] to insert it.
     pub fn clone_op(&mut self, src_op: OpRef, mapping: &mut IrMapping) -> OpRef {
+        let mut unmapped = Vec::new();
+        let new_op = self.clone_op_inner(src_op, mapping, &mut unmapped);
+        self.remap_forward_references(mapping, unmapped);
+        new_op
+    }
+
+    /// Redirect cloned operands whose definition was cloned after their use
+    /// (a region may list its blocks in any order).
+    fn remap_forward_references(
+        &mut self,
+        mapping: &IrMapping,
+        unmapped: Vec<(OpRef, u32, ValueRef)>,
+    ) {
+        for (op, index, old) in unmapped {
+            if let Some(new) = mapping.lookup_value(old) {
+                self.set_op_operand(op, index, new);
+            }
+        }
+    }
+
+    /// Clone an operation, recording the operands that had no mapping yet.
+    fn clone_op_inner(
+        &mut self,
+        src_op: OpRef,
+        mapping: &mut IrMapping,
+        unmapped: &mut Vec<(OpRef, u32, ValueRef)>,
+    ) -> OpRef {
         // Copy all data from src_op into locals to avoid borrow conflicts.
         let data = &self.ops[src_op];
         let loc = data.location;
@@ -714,6 +741,12 @@ impl IrContext {
 
         // Build new operation with remapped operands and successors.
         let mut builder = OperationDataBuilder::new(loc, dialect, name);
+        let still_unmapped: SmallVec<[(u32, ValueRef); 4]> = operands
+            .iter()
+            .enumerate()
+            .filter(|(_, v)| !mapping.contains_value(**v))
+            .map(|(i, v)| (i as u32, *v))
+            .collect();
         for &v in &operands {
             builder = builder.operand(mapping.lookup_value_or_default(v));
         }
@@ -724,7 +757,7 @@ impl IrContext {
             builder = builder.attr(k, v);
         }
         for &r in &regions {
-            let cloned_region = self.clone_region(r, mapping);
+            let cloned_region = self.clone_region_inner(r, mapping, unmapped);
             builder = builder.region(cloned_region);
         }
         for &s in &successors {
@@ -733,6 +766,7 @@ impl IrContext {
 
         let op_data = builder.build(self);
         let new_op = self.create_op(op_data);
+        unmapped.extend(still_unmapped.into_iter().map(|(i, v)| (new_op, i, v)));
 
         // Register result value mappings: old results → new results.
         let old_results: SmallVec<[ValueRef; 4]> =
@@ -756,6 +790,18 @@ impl IrContext {
     /// Values not in the mapping (external references) pass through
     /// unchanged.
     pub fn clone_region(&mut self, src_region: RegionRef, mapping: &mut IrMapping) -> RegionRef {
+        let mut unmapped = Vec::new();
+        let new_region = self.clone_region_inner(src_region, mapping, &mut unmapped);
+        self.remap_forward_references(mapping, unmapped);
+        new_region
+    }
+
+    fn clone_region_inner(
+        &mut self,
+        src_region: RegionRef,
+        mapping: &mut IrMapping,
+        unmapped: &mut Vec<(OpRef, u32, ValueRef)>,
+    ) -> RegionRef {
         let loc = self.regions[src_region].location;
         let src_blocks: SmallVec<[BlockRef; 4]> = self.regions[src_region].blocks.clone();
 
@@ -799,7 +845,7 @@ impl IrContext {
         for (&src_block, &new_block) in src_blocks.iter().zip(new_blocks.iter()) {
             let src_ops: SmallVec<[OpRef; 4]> = self.blocks[src_block].ops.clone();
             for &op in &src_ops {
-                let new_op = self.clone_op(op, mapping);
+                let new_op = self.clone_op_inner(op, mapping, unmapped);
                 self.push_op(new_block, new_op);
             }
         }
-- 
2.43.0


From 69119142f5a66e9548b013ead5f639333b004031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:30 +0000
Subject: [PATCH 07/21] fix: nested pass manager skips targets erased by an
 earlier pass on a sibling

---
 crates/trunk-ir/src/pass.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/crates/trunk-ir/src/pass.rs b/crates/trunk-ir/src/pass.rs
index 92fa180..bd7c565 100644
--- a/crates/trunk-ir/src/pass.rs
+++ b/crates/trunk-ir/src/pass.rs
@@ -242,8 +242,9 @@ impl<T: DialectOp + 'static> NestedRunner for TypedNested<T> {
         let targets = collect_targets::<T>(ctx, parent_op);
         for target in targets {
             // Skip stale refs: a previous pass in this nested manager may
-            // have erased the op.
-            if !T::matches(ctx, target.op_ref()) {
+            // have erased the op, or an op enclosing it. Erased ops keep
+            // their dialect/name, so reachability from the parent decides.
+            if !T::matches(ctx, target.op_ref()) || !is_within(ctx, target.op_ref(), parent_op) {
                 continue;
             }
             ensure_nested_anchor_is_isolated(ctx, target.op_ref())?;
@@ -270,6 +271,22 @@ fn target_still_alive<T: DialectOp>(ctx: &IrContext, op: OpRef, pre_attached: bo
     !pre_attached || ctx.op(op).parent_block.is_some()
 }
 
+/// Returns whether `op` is `root` or still attached somewhere below it.
+fn is_within(ctx: &IrContext, mut op: OpRef, root: OpRef) -> bool {
+    while op != root {
+        let Some(parent) = ctx
+            .op(op)
+            .parent_block
+            .and_then(|block| ctx.block(block).parent_region)
+            .and_then(|region| ctx.region(region).parent_op)
+        else {
+            return false;
+        };
+        op = parent;
+    }
+    true
+}
+
 fn collect_targets<T: DialectOp>(ctx: &IrContext, root: OpRef) -> Vec<T> {
     let mut found = Vec::new();
     let _ = walk_op::<()>(ctx, root, &mut |op| {
-- 
2.43.0


From 1d5f75ade711fe3897964c130c437efb8990551a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:28 +0000
Subject: [PATCH 08/21] fix: resolve the wasm call_indirect type index from the
 registered signature

---
 .../src/emit/handlers/call_handlers.rs        | 38 +++++++------------
 1 file changed, 13 insertions(+), 25 deletions(-)

diff --git a/crates/trunk-ir-wasm-backend/src/emit/handlers/call_handlers.rs b/crates/trunk-ir-wasm-backend/src/emit/handlers/call_handlers.rs
index c4fb863..c2f4f35 100644
--- a/crates/trunk-ir-wasm-backend/src/emit/handlers/call_handlers.rs
+++ b/crates/trunk-ir-wasm-backend/src/emit/handlers/call_handlers.rs
@@ -192,32 +192,20 @@ pub(crate) fn handle_call_indirect(
         ctx.types.get(result_ty).name
     );
 
-    // Get or compute type_idx
+    // Resolve the type index from the registered signature. The `type_idx`
+    // attribute is only a placeholder: `func_to_wasm` cannot know the type
+    // section layout when it creates the operation.
+    let type_idx = module_info
+        .type_idx_by_type
+        .get(&func_type)
+        .copied()
+        .ok_or_else(|| {
+            CompilationError::invalid_module(
+                "wasm.call_indirect function type not registered in type section",
+            )
+        })?;
+    debug!("call_indirect emit: looked up type_idx: {}", type_idx);
     let attrs = &ctx.op(op).attributes;
-    let type_idx = match attr_u32(attrs, Symbol::new("type_idx")) {
-        Ok(idx) => {
-            debug!("call_indirect emit: using type_idx from attribute: {}", idx);
-            idx
-        }
-        Err(_) => {
-            // Look up type index
-            let idx = module_info
-                .type_idx_by_type
-                .get(&func_type)
-                .copied()
-                .ok_or_else(|| {
-                    debug!(
-                        "call_indirect emit: func_type not found in type_idx_by_type! func_type={:?}",
-                        func_type
-                    );
-                    CompilationError::invalid_module(
-                        "wasm.call_indirect function type not registered in type section",
-                    )
-                })?;
-            debug!("call_indirect emit: looked up type_idx: {}", idx);
-            idx
-        }
-    };
 
     // call_indirect with i32 table index
     // IR operand order: [table_idx, arg1, arg2, ...]
-- 
2.43.0


From 37b4f75a0b7ca1d82dc3dbf2752cd618365e2960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:28 +0000
Subject: [PATCH 09/21] fix: lower every unsigned integer comparison to wasm

---
 crates/trunk-ir-wasm-backend/src/passes/arith_to_wasm.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/trunk-ir-wasm-backend/src/passes/arith_to_wasm.rs b/crates/trunk-ir-wasm-backend/src/passes/arith_to_wasm.rs
index a344721..e2f91bf 100644
--- a/crates/trunk-ir-wasm-backend/src/passes/arith_to_wasm.rs
+++ b/crates/trunk-ir-wasm-backend/src/passes/arith_to_wasm.rs
@@ -254,6 +254,13 @@ impl RewritePattern for ArithCmpPattern {
                 ("i32", "sge") => wasm_dialect::i32_ge_s(ctx, loc, lhs, rhs, result_ty).op_ref(),
                 ("i64", "sge") => wasm_dialect::i64_ge_s(ctx, loc, lhs, rhs, result_ty).op_ref(),
                 ("i32", "ult") => wasm_dialect::i32_lt_u(ctx, loc, lhs, rhs, result_ty).op_ref(),
+                ("i64", "ult") => wasm_dialect::i64_lt_u(ctx, loc, lhs, rhs, result_ty).op_ref(),
+                ("i32", "ule") => wasm_dialect::i32_le_u(ctx, loc, lhs, rhs, result_ty).op_ref(),
+                ("i64", "ule") => wasm_dialect::i64_le_u(ctx, loc, lhs, rhs, result_ty).op_ref(),
+                ("i32", "ugt") => wasm_dialect::i32_gt_u(ctx, loc, lhs, rhs, result_ty).op_ref(),
+                ("i64", "ugt") => wasm_dialect::i64_gt_u(ctx, loc, lhs, rhs, result_ty).op_ref(),
+                ("i32", "uge") => wasm_dialect::i32_ge_u(ctx, loc, lhs, rhs, result_ty).op_ref(),
+                ("i64", "uge") => wasm_dialect::i64_ge_u(ctx, loc, lhs, rhs, result_ty).op_ref(),
                 _ => return false,
             };
             rewriter.replace_op(new_op);
-- 
2.43.0


From 1627d2a7b1549f320fc61af866ce8344b4c3a6e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:28 +0000
Subject: [PATCH 10/21] fix: unit values inside wasm blocks no longer leave a
 stray null on the stack

---
 crates/trunk-ir-wasm-backend/src/emit.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/crates/trunk-ir-wasm-backend/src/emit.rs b/crates/trunk-ir-wasm-backend/src/emit.rs
index 1b7001e..42a3164 100644
--- a/crates/trunk-ir-wasm-backend/src/emit.rs
+++ b/crates/trunk-ir-wasm-backend/src/emit.rs
@@ -958,12 +958,10 @@ fn emit_op_nested(
                 }));
                 set_result_local(ctx, op, emit_ctx, function)?;
             } else if is_nil_type(ctx, result_ty) {
-                debug!("wasm.nop: emitting ref.null none for nil type");
-                function.instruction(&Instruction::RefNull(HeapType::Abstract {
-                    shared: false,
-                    ty: AbstractHeapType::None,
-                }));
-                set_result_local(ctx, op, emit_ctx, function)?;
+                // Nil results own a nullable local that is never assigned, so
+                // it already holds `ref.null none`. Pushing another value here
+                // would leave it on the stack of the enclosing block.
+                debug!("wasm.nop: nil value stays in its default local");
             } else {
                 debug!("wasm.nop: skipping (unknown primitive type)");
             }
-- 
2.43.0


From 197fe688dd57b4919b9cac920ba53899e0ac2cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:28 +0000
Subject: [PATCH 11/21] fix: wasm loop exits branch to their loop from any
 nesting depth

---
 .../emit/handlers/control_flow_handlers.rs    | 14 ++++----
 .../src/passes/scf_to_wasm.rs                 | 33 ++++++++++++++++---
 2 files changed, 37 insertions(+), 10 deletions(-)

diff --git a/crates/trunk-ir-wasm-backend/src/emit/handlers/control_flow_handlers.rs b/crates/trunk-ir-wasm-backend/src/emit/handlers/control_flow_handlers.rs
index fbdb6bc..0f93394 100644
--- a/crates/trunk-ir-wasm-backend/src/emit/handlers/control_flow_handlers.rs
+++ b/crates/trunk-ir-wasm-backend/src/emit/handlers/control_flow_handlers.rs
@@ -73,14 +73,16 @@ pub(crate) fn handle_if(
     let operands = ctx.op_operands(op);
     let result_ty = ctx.op_result_types(op).first().copied();
 
-    // Check if we can actually get a result value from the then region
+    // Check if either branch actually produces a result value. A branch that
+    // leaves through `wasm.br` has none, but its sibling may still yield.
     let regions = &ctx.op(op).regions;
-    let then_region_result = regions.first().and_then(|r| region_result_value(ctx, *r));
-    let then_has_result_value = then_region_result.is_some();
+    let has_result_value = regions
+        .iter()
+        .any(|r| region_result_value(ctx, *r).is_some());
 
     debug!(
-        "wasm.if: then_has_result_value={}, result_ty={:?}",
-        then_has_result_value,
+        "wasm.if: has_result_value={}, result_ty={:?}",
+        has_result_value,
         result_ty.map(|ty| {
             let data = ctx.types.get(ty);
             format!("{}.{}", data.dialect, data.name)
@@ -90,7 +92,7 @@ pub(crate) fn handle_if(
     // Determine if we should use a result type
     // Use IR result type directly - type variables are resolved at AST level
     let has_result =
-        then_has_result_value && matches!(result_ty, Some(ty) if !helpers::is_nil_type(ctx, ty));
+        has_result_value && matches!(result_ty, Some(ty) if !helpers::is_nil_type(ctx, ty));
 
     let block_type = compute_block_type(ctx, has_result, result_ty, module_info)?;
 
diff --git a/crates/trunk-ir-wasm-backend/src/passes/scf_to_wasm.rs b/crates/trunk-ir-wasm-backend/src/passes/scf_to_wasm.rs
index 3d0c1c3..11515c1 100644
--- a/crates/trunk-ir-wasm-backend/src/passes/scf_to_wasm.rs
+++ b/crates/trunk-ir-wasm-backend/src/passes/scf_to_wasm.rs
@@ -197,6 +197,9 @@ impl RewritePattern for ScfContinuePattern {
             return false;
         }
 
+        let Some(depth) = enclosing_loop_depth(ctx, op) else {
+            return false;
+        };
         let loc = ctx.op(op).location;
 
         // Get loop-carried values (variadic operands)
@@ -208,7 +211,7 @@ impl RewritePattern for ScfContinuePattern {
 
         if values.is_empty() {
             // No loop-carried values -- simple branch
-            let br_op = wasm_dialect::br(ctx, loc, 1);
+            let br_op = wasm_dialect::br(ctx, loc, depth);
             rewriter.replace_op(br_op.op_ref());
             return true;
         }
@@ -218,7 +221,7 @@ impl RewritePattern for ScfContinuePattern {
         // local.set for the loop arg followed by br.
         let value = values[0];
         let yield_op = wasm_dialect::r#yield(ctx, loc, value);
-        let br_op = wasm_dialect::br(ctx, loc, 1);
+        let br_op = wasm_dialect::br(ctx, loc, depth);
 
         rewriter.insert_op(yield_op.op_ref());
         rewriter.replace_op(br_op.op_ref());
@@ -249,14 +252,17 @@ impl RewritePattern for ScfBreakPattern {
             return false;
         };
 
+        let Some(depth) = enclosing_loop_depth(ctx, op) else {
+            return false;
+        };
         let loc = ctx.op(op).location;
         let value = break_op.value(ctx);
 
         // Emit the break value via wasm.yield (marks it as region result)
         let yield_op = wasm_dialect::r#yield(ctx, loc, value);
 
-        // Branch to outer block (depth 2: if=0, loop=1, block=2)
-        let br_op = wasm_dialect::br(ctx, loc, 2);
+        // The break block is the label just outside the loop
+        let br_op = wasm_dialect::br(ctx, loc, depth + 1);
 
         rewriter.insert_op(yield_op.op_ref());
         rewriter.replace_op(br_op.op_ref());
@@ -267,3 +273,22 @@ impl RewritePattern for ScfBreakPattern {
 // ============================================================================
 // Helpers
 // ============================================================================
+
+/// Branch depth from `op` to the `wasm.loop` label of its innermost enclosing loop.
+///
+/// Every structured operation between `op` and the loop body becomes one wasm
+/// label, whether or not it has already been rewritten.
+fn enclosing_loop_depth(ctx: &IrContext, op: OpRef) -> Option<u32> {
+    let mut depth = 0;
+    let mut current = op;
+    loop {
+        let block = ctx.op(current).parent_block?;
+        let region = ctx.block(block).parent_region?;
+        let parent = ctx.region(region).parent_op?;
+        if scf::Loop::matches(ctx, parent) || wasm_dialect::Loop::matches(ctx, parent) {
+            return Some(depth);
+        }
+        depth += 1;
+        current = parent;
+    }
+}
-- 
2.43.0


From 4f289eb7d61bd008abd8fbfd69276fcb998097a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:34 +0000
Subject: [PATCH 12/21] fix: retry short and interrupted writes in the runtime
 print functions

---
 crates/tribute-runtime/src/lib.rs | 22 +++++++---------------
 1 file changed, 7 insertions(+), 15 deletions(-)

diff --git a/crates/tribute-runtime/src/lib.rs b/crates/tribute-runtime/src/lib.rs
index 1520e5b..a8c5fd7 100644
--- a/crates/tribute-runtime/src/lib.rs
+++ b/crates/tribute-runtime/src/lib.rs
@@ -141,10 +141,8 @@ unsafe extern "C" {
 pub extern "C" fn __tribute_print_int(value: i32) {
     let mut buf = itoa::Buffer::new();
     let s = buf.format(value);
-    unsafe {
-        write(1, s.as_ptr(), s.len());
-        write(1, b"\n".as_ptr(), 1);
-    }
+    write_stdout_all(s.as_bytes());
+    write_stdout_all(b"\n");
 }
 
 /// Print an unsigned 32-bit integer to stdout, followed by a newline.
@@ -156,10 +154,8 @@ pub extern "C" fn __tribute_print_int(value: i32) {
 pub extern "C" fn __tribute_print_nat(value: u32) {
     let mut buf = itoa::Buffer::new();
     let s = buf.format(value);
-    unsafe {
-        write(1, s.as_ptr(), s.len());
-        write(1, b"\n".as_ptr(), 1);
-    }
+    write_stdout_all(s.as_bytes());
+    write_stdout_all(b"\n");
 }
 
 /// Print a 64-bit float to stdout, followed by a newline.
@@ -171,10 +167,8 @@ pub extern "C" fn __tribute_print_nat(value: u32) {
 pub extern "C" fn __tribute_print_float(value: f64) {
     let mut buf = zmij::Buffer::new();
     let s = buf.format(value);
-    unsafe {
-        write(1, s.as_ptr(), s.len());
-        write(1, b"\n".as_ptr(), 1);
-    }
+    write_stdout_all(s.as_bytes());
+    write_stdout_all(b"\n");
 }
 
 /// Print raw bytes to stdout (no newline appended).
@@ -197,9 +191,7 @@ pub unsafe extern "C" fn __tribute_print_bytes(ptr: *const u8, len: u64) {
     let Ok(len) = usize::try_from(len) else {
         return;
     };
-    unsafe {
-        write(1, ptr, len);
-    }
+    write_stdout_all(unsafe { core::slice::from_raw_parts(ptr, len) });
 }
 
 /// Print a newline character to stdout.
-- 
2.43.0


From 302d37329b2ad918b532a1ab4d10f156e6d196d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:11 +0000
Subject: [PATCH 13/21] fix: keep constructor results RC-managed in the native
 ADT lowering

struct_new/variant_new of a managed (anyref) result were lowered to a bare
core.ptr, which RC insertion does not track: storing the fresh value in two
fields, or in a container that dies first, freed it while still in use.
---
 .../src/native/adt_rc_header.rs               | 21 +++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/crates/tribute-passes/src/native/adt_rc_header.rs b/crates/tribute-passes/src/native/adt_rc_header.rs
index efd9a05..fcd13a9 100644
--- a/crates/tribute-passes/src/native/adt_rc_header.rs
+++ b/crates/tribute-passes/src/native/adt_rc_header.rs
@@ -15,14 +15,14 @@
 
 use std::collections::HashMap;
 
-use tribute_ir::dialect::tribute_rt::{RC_HEADER_SIZE, REFCOUNT_OFFSET, RTTI_IDX_OFFSET};
+use tribute_ir::dialect::tribute_rt::{self, RC_HEADER_SIZE, REFCOUNT_OFFSET, RTTI_IDX_OFFSET};
 use trunk_ir::Symbol;
 use trunk_ir::adt_layout::{compute_enum_layout, compute_struct_layout, find_variant_layout};
 use trunk_ir::context::IrContext;
 use trunk_ir::dialect::adt;
 use trunk_ir::dialect::clif;
 use trunk_ir::dialect::core;
-use trunk_ir::ops::DialectOp;
+use trunk_ir::ops::{DialectOp, DialectType};
 use trunk_ir::refs::{OpRef, TypeRef};
 use trunk_ir::rewrite::rewriter::PatternRewriter;
 use trunk_ir::rewrite::type_converter::TypeConverter;
@@ -75,6 +75,17 @@ pub fn lower(
     Ok(())
 }
 
+/// Type of the pointer a constructor produces.
+///
+/// A construction that yields a managed reference keeps that type: RC insertion
+/// tracks references by their type, and a bare `core.ptr` would not be counted.
+fn managed_result_type(ctx: &IrContext, op: OpRef, ptr_ty: TypeRef) -> TypeRef {
+    match ctx.op_result_types(op) {
+        &[ty] if tribute_rt::Anyref::matches(ctx, ty) => ty,
+        _ => ptr_ty,
+    }
+}
+
 /// Pattern for `adt.struct_new(fields...)` -> heap allocation + RC header + stores.
 ///
 /// Generates:
@@ -185,7 +196,8 @@ impl RewritePattern for StructNewPattern {
         let zero_val = zero_op.result(ctx);
         ops.push(zero_op.op_ref());
 
-        let identity_op = clif::iadd(ctx, loc, payload_val, zero_val, self.ptr_ty);
+        let result_ty = managed_result_type(ctx, op, self.ptr_ty);
+        let identity_op = clif::iadd(ctx, loc, payload_val, zero_val, result_ty);
         ops.push(identity_op.op_ref());
 
         let last = ops.pop().unwrap();
@@ -325,7 +337,8 @@ impl RewritePattern for VariantNewPattern {
         let zero_val = zero_op.result(ctx);
         ops.push(zero_op.op_ref());
 
-        let identity_op = clif::iadd(ctx, loc, payload_val, zero_val, self.ptr_ty);
+        let result_ty = managed_result_type(ctx, op, self.ptr_ty);
+        let identity_op = clif::iadd(ctx, loc, payload_val, zero_val, result_ty);
         ops.push(identity_op.op_ref());
 
         let last = ops.pop().unwrap();
-- 
2.43.0


From d96fe7d84862cef037d5633bb9b9e76f78d7a81b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:11 +0000
Subject: [PATCH 14/21] fix: retain values that outlive the jump passing them
 to a block argument

The successor releases its block argument, so a jump operand that is still
live afterwards (or is passed twice) needs a reference of its own.
---
 .../tribute-passes/src/native/rc_insertion.rs | 21 +++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/crates/tribute-passes/src/native/rc_insertion.rs b/crates/tribute-passes/src/native/rc_insertion.rs
index b98854b..8784f36 100644
--- a/crates/tribute-passes/src/native/rc_insertion.rs
+++ b/crates/tribute-passes/src/native/rc_insertion.rs
@@ -1333,6 +1333,27 @@ fn insert_rc_in_block(
         }
     }
 
+    // 3. A jump hands one owned reference to each successor block argument. The
+    // block's own reference covers one of them, and only if the value dies here.
+    if let Some(&jump) = ops.last()
+        && clif::Jump::matches(ctx, jump)
+    {
+        let mut forwarded = HashSet::new();
+        for argument in ctx.op_operands(jump).to_vec() {
+            let owned = ptr_alias_map.get(&argument).copied().unwrap_or(argument);
+            if !ptr_values.contains(&owned) {
+                continue;
+            }
+            if live_out.contains(&owned) || !forwarded.insert(owned) {
+                let retain = tribute_rt::retain(ctx, ctx.op(jump).location, argument, ptr_ty);
+                plan.before
+                    .entry(ops.len() - 1)
+                    .or_default()
+                    .push(retain.op_ref());
+            }
+        }
+    }
+
     let defs_in_block = liveness.def_set.get(&block).cloned().unwrap_or_default();
 
     // --- Release insertions ---
-- 
2.43.0


From ab2ccca9f12f14aa0a04be057c10d6fe3351c6b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:53 +0000
Subject: [PATCH 15/21] fix: pass freshly built enum values to indirect calls
 as anyref on Wasm

The call_indirect signature was derived from the operand types, so a variant
constructed at the call site produced a signature no callee has, and the call
trapped.
---
 .../src/emit/call_indirect_collection.rs            |  9 +--------
 .../src/emit/handlers/call_handlers.rs              | 12 +-----------
 crates/trunk-ir-wasm-backend/src/emit/helpers.rs    | 13 +++++++++++++
 3 files changed, 15 insertions(+), 19 deletions(-)

diff --git a/crates/trunk-ir-wasm-backend/src/emit/call_indirect_collection.rs b/crates/trunk-ir-wasm-backend/src/emit/call_indirect_collection.rs
index 272114d..feb8607 100644
--- a/crates/trunk-ir-wasm-backend/src/emit/call_indirect_collection.rs
+++ b/crates/trunk-ir-wasm-backend/src/emit/call_indirect_collection.rs
@@ -182,14 +182,7 @@ pub(crate) fn collect_call_indirect_types(
                         .skip(1)
                         .map(|v| {
                             let ty = helpers::value_type(ctx, *v);
-                            // After normalize_primitive_types pass:
-                            // - tribute_rt.any -> wasm.anyref
-                            // So we only need to check for wasm.anyref
-                            if helpers::is_type(ctx, ty, "wasm", "anyref") {
-                                anyref_ty
-                            } else {
-                                ty
-                            }
+                            helpers::indirect_param_type(ctx, ty, anyref_ty)
                         })
                         .collect();
 
diff --git a/crates/trunk-ir-wasm-backend/src/emit/handlers/call_handlers.rs b/crates/trunk-ir-wasm-backend/src/emit/handlers/call_handlers.rs
index c2f4f35..834e4e8 100644
--- a/crates/trunk-ir-wasm-backend/src/emit/handlers/call_handlers.rs
+++ b/crates/trunk-ir-wasm-backend/src/emit/handlers/call_handlers.rs
@@ -116,22 +116,12 @@ pub(crate) fn handle_call_indirect(
         .common_types
         .anyref
         .ok_or_else(|| CompilationError::invalid_module("anyref type not pre-interned"))?;
-    let normalize_param_type = |ty: TypeRef| -> TypeRef {
-        // After normalize_primitive_types pass:
-        // - tribute_rt.any → wasm.anyref
-        // So we only need to check for wasm.anyref
-        if helpers::is_type(ctx, ty, "wasm", "anyref") {
-            anyref_ty
-        } else {
-            ty
-        }
-    };
     let param_types: Vec<TypeRef> = operands
         .iter()
         .skip(1)
         .map(|v| {
             let ty = helpers::value_type(ctx, *v);
-            normalize_param_type(ty)
+            helpers::indirect_param_type(ctx, ty, anyref_ty)
         })
         .collect();
 
diff --git a/crates/trunk-ir-wasm-backend/src/emit/helpers.rs b/crates/trunk-ir-wasm-backend/src/emit/helpers.rs
index 1fffc9b..dda91ad 100644
--- a/crates/trunk-ir-wasm-backend/src/emit/helpers.rs
+++ b/crates/trunk-ir-wasm-backend/src/emit/helpers.rs
@@ -87,6 +87,19 @@ pub(crate) fn should_normalize_to_anyref(ctx: &IrContext, ty: TypeRef) -> bool {
     is_type(ctx, ty, "wasm", "anyref")
 }
 
+/// Parameter type an indirect call passes an operand of type `ty` as.
+///
+/// A freshly built enum value has the refined type of its variant, but callees
+/// take enum values as anyref.
+pub(crate) fn indirect_param_type(ctx: &IrContext, ty: TypeRef, anyref_ty: TypeRef) -> TypeRef {
+    let is_variant = ctx.types.get(ty).attrs.get_bool("is_variant") == Some(true);
+    if should_normalize_to_anyref(ctx, ty) || is_variant {
+        anyref_ty
+    } else {
+        ty
+    }
+}
+
 // ============================================================================
 // Type conversion
 // ============================================================================
-- 
2.43.0


From c5ccbf3e63da5d7966de223e0b6fe4972a25b225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:53 +0000
Subject: [PATCH 16/21] fix: give a null anyref the abstract heap type on Wasm

adt.ref_null keeps the logical tribute_rt.anyref in its type attribute, which
was assigned a concrete GC struct index that then stood for anyref in every
signature and field: any closure without captures made the module invalid.
---
 crates/trunk-ir-wasm-backend/src/passes/adt_to_wasm.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/crates/trunk-ir-wasm-backend/src/passes/adt_to_wasm.rs b/crates/trunk-ir-wasm-backend/src/passes/adt_to_wasm.rs
index 3ca21d9..a808ad2 100644
--- a/crates/trunk-ir-wasm-backend/src/passes/adt_to_wasm.rs
+++ b/crates/trunk-ir-wasm-backend/src/passes/adt_to_wasm.rs
@@ -580,9 +580,15 @@ impl RewritePattern for RefNullPattern {
         let loc = ctx.op(op).location;
         let result_ty = ref_null.result_ty(ctx);
 
-        let adt_type = ref_null.r#type(ctx);
+        // The type attribute still names the logical type. A null of an abstract
+        // reference type must not be given a concrete GC type index.
+        let target_ty = if helpers::is_type(ctx, result_ty, "wasm", "anyref") {
+            result_ty
+        } else {
+            ref_null.r#type(ctx)
+        };
 
-        let new_op = wasm_gc_dialect::ref_null(ctx, loc, result_ty, adt_type);
+        let new_op = wasm_gc_dialect::ref_null(ctx, loc, result_ty, target_ty);
         rewriter.replace_op(new_op.op_ref());
         true
     }
-- 
2.43.0


From 9356c4524b2a875a11c96f3e6741efa78a7ee04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:42 +0000
Subject: [PATCH 17/21] fix: bound-check and zero-extend Bytes::get_or_panic on
 native

---
 .../src/native/intrinsic_to_native.rs         | 118 ++++++++++++++----
 1 file changed, 93 insertions(+), 25 deletions(-)

diff --git a/crates/tribute-passes/src/native/intrinsic_to_native.rs b/crates/tribute-passes/src/native/intrinsic_to_native.rs
index 85f98b3..c6476de 100644
--- a/crates/tribute-passes/src/native/intrinsic_to_native.rs
+++ b/crates/tribute-passes/src/native/intrinsic_to_native.rs
@@ -10,16 +10,16 @@ use std::collections::HashSet;
 use std::rc::Rc;
 
 use trunk_ir::Symbol;
-use trunk_ir::context::IrContext;
-use trunk_ir::dialect::func;
-use trunk_ir::dialect::mem;
+use trunk_ir::context::{BlockData, IrContext, RegionData};
+use trunk_ir::dialect::{arith, func, mem, scf};
 use trunk_ir::ops::DialectOp;
-use trunk_ir::refs::OpRef;
+use trunk_ir::refs::{OpRef, RegionRef};
 use trunk_ir::rewrite::{
     ConversionError, ConversionTarget, LegalityDecision, Module, PatternApplicator,
     PatternRewriter, RewritePattern, TypeConverter,
 };
-use trunk_ir::types::TypeDataBuilder;
+use trunk_ir::smallvec::smallvec;
+use trunk_ir::types::{Attribute, Location, TypeDataBuilder};
 
 /// Lower bytes intrinsic calls to native mem operations.
 ///
@@ -73,11 +73,17 @@ pub fn lower(ctx: &mut IrContext, module: Module) -> Result<(), ConversionError>
 ///   offset 0: ptr (*const u8) - 8 bytes
 ///   offset 8: len (u64)       - 8 bytes
 ///
-/// Emits:
-///   %data_ptr = mem.load %bytes, offset=0 : core.ptr
-///   %addr = arith.addi %data_ptr, %index : core.ptr
-///   %byte = mem.load %addr, offset=0 : core.i8
-///   %result = arith.extend %byte : result_ty (Nat/i32)
+/// Emits, with index and byte zero-extended:
+///   %len = mem.load %bytes, offset=8 : core.i64
+///   %in_bounds = arith.cmpi %index, %len, ult : core.i1
+///   %result = scf.if %in_bounds : result_ty (Nat/i32) {
+///     %data_ptr = mem.load %bytes, offset=0 : core.ptr
+///     %addr = arith.addi %data_ptr, %index : core.ptr
+///     %byte = mem.load %addr, offset=0 : core.i8
+///     scf.yield %byte
+///   } {
+///     func.unreachable
+///   }
 struct BytesGetOrPanicPattern;
 
 impl RewritePattern for BytesGetOrPanicPattern {
@@ -107,36 +113,98 @@ impl RewritePattern for BytesGetOrPanicPattern {
             .types
             .intern(TypeDataBuilder::new(Symbol::new("core"), Symbol::new("i8")).build());
 
-        // Load data pointer from TributeBytes (offset 0)
-        let data_ptr = mem::load(ctx, loc, bytes, ptr_ty, 0);
-        rewriter.insert_op(data_ptr.op_ref());
+        let i1_ty = ctx
+            .types
+            .intern(TypeDataBuilder::new(Symbol::new("core"), Symbol::new("i1")).build());
+        let i64_ty = ctx
+            .types
+            .intern(TypeDataBuilder::new(Symbol::new("core"), Symbol::new("i64")).build());
 
-        // Extend index (Nat = i32) to pointer width (i64)
-        let index_ext = trunk_ir::dialect::arith::extend(ctx, loc, index, ptr_ty);
+        // Zero-extend index (Nat = i32) to pointer width (i64)
+        let index_ext = arith::extend(ctx, loc, index, i64_ty);
         rewriter.insert_op(index_ext.op_ref());
-
-        // Compute address: data_ptr + index
-        let addr = trunk_ir::dialect::arith::addi(
+        let index_mask = arith::r#const(ctx, loc, i64_ty, Attribute::Int(0xffff_ffff));
+        rewriter.insert_op(index_mask.op_ref());
+        let index64 = arith::and(
             ctx,
             loc,
-            data_ptr.result(ctx),
             index_ext.result(ctx),
-            ptr_ty,
+            index_mask.result(ctx),
+            i64_ty,
         );
-        rewriter.insert_op(addr.op_ref());
+        rewriter.insert_op(index64.op_ref());
 
-        // Load byte (i8) from computed address
+        // Bounds check against the length (offset 8)
+        let len = mem::load(ctx, loc, bytes, i64_ty, 8);
+        rewriter.insert_op(len.op_ref());
+        let in_bounds = arith::cmpi(
+            ctx,
+            loc,
+            index64.result(ctx),
+            len.result(ctx),
+            i1_ty,
+            Symbol::new("ult"),
+        );
+        rewriter.insert_op(in_bounds.op_ref());
+
+        // Load data pointer (offset 0), then the byte at data_ptr + index
+        let data_ptr = mem::load(ctx, loc, bytes, ptr_ty, 0);
+        let addr = arith::addi(ctx, loc, data_ptr.result(ctx), index64.result(ctx), ptr_ty);
         let byte_val = mem::load(ctx, loc, addr.result(ctx), i8_ty, 0);
-        rewriter.insert_op(byte_val.op_ref());
 
         // Zero-extend i8 → result type (Nat = i32)
-        let extended = trunk_ir::dialect::arith::extend(ctx, loc, byte_val.result(ctx), result_ty);
-        rewriter.replace_op(extended.op_ref());
+        let byte_ext = arith::extend(ctx, loc, byte_val.result(ctx), result_ty);
+        let byte_mask = arith::r#const(ctx, loc, result_ty, Attribute::Int(0xff));
+        let byte = arith::and(
+            ctx,
+            loc,
+            byte_ext.result(ctx),
+            byte_mask.result(ctx),
+            result_ty,
+        );
+        let byte_result = byte.result(ctx);
+        let yield_byte = scf::r#yield(ctx, loc, [byte_result]);
+        let load_region = single_block_region(
+            ctx,
+            loc,
+            &[
+                data_ptr.op_ref(),
+                addr.op_ref(),
+                byte_val.op_ref(),
+                byte_ext.op_ref(),
+                byte_mask.op_ref(),
+                byte.op_ref(),
+                yield_byte.op_ref(),
+            ],
+        );
+        let trap = func::unreachable(ctx, loc);
+        let trap_region = single_block_region(ctx, loc, &[trap.op_ref()]);
+        let in_bounds = in_bounds.result(ctx);
+        let get = scf::r#if(ctx, loc, in_bounds, result_ty, load_region, trap_region);
+        rewriter.replace_op(get.op_ref());
 
         true
     }
 }
 
+/// Wrap operations in a region with a single block.
+fn single_block_region(ctx: &mut IrContext, location: Location, ops: &[OpRef]) -> RegionRef {
+    let block = ctx.create_block(BlockData {
+        location,
+        args: vec![],
+        ops: smallvec![],
+        parent_region: None,
+    });
+    for &op in ops {
+        ctx.push_op(block, op);
+    }
+    ctx.create_region(RegionData {
+        location,
+        blocks: smallvec![block],
+        parent_op: None,
+    })
+}
+
 /// Pattern that removes `func.func` declarations for bytes intrinsics.
 struct BytesIntrinsicFuncDeclPattern {
     intrinsic_names: Rc<HashSet<Symbol>>,
-- 
2.43.0


From 57cb1376328300ce1c9db9c55314f6b454b52bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:23 +0000
Subject: [PATCH 18/21] fix: run a handler's done arm under the enclosing
 evidence

resolve_evidence rewrote the done region of a legacy handle with the evidence
extended by that very handle, so an ability operation performed after the
handled body (in the done arm or in the code following the handle) was
dispatched to the handler that had already ended instead of the enclosing one.
---
 crates/tribute-passes/src/resolve_evidence.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/tribute-passes/src/resolve_evidence.rs b/crates/tribute-passes/src/resolve_evidence.rs
index f7bb44a..d562d34 100644
--- a/crates/tribute-passes/src/resolve_evidence.rs
+++ b/crates/tribute-passes/src/resolve_evidence.rs
@@ -892,12 +892,14 @@ fn transform_shifts_in_block(
             }
 
             // Always transform handler body region, even when abilities is
-            // empty, so that any shifts inside are properly resolved.
+            // empty, so that any shifts inside are properly resolved. The
+            // done arm and the continuation it invokes run outside the handled
+            // body, so they keep the enclosing evidence.
             let handler_body = dispatch_op.body(ctx);
             transform_shifts_in_region(
                 ctx,
                 handler_body,
-                current_ev,
+                ev_value,
                 fns_with_evidence,
                 prepend_evidence,
             )?;
-- 
2.43.0


From 2e861ebbeb67f3f93c3e389c09d24c0b8cc08f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:27 +0000
Subject: [PATCH 19/21] fix: release exactly the fields an object owns

Storing a value in a struct or enum field takes a reference only for managed
references; the generated release functions gave one back for every field that
is a pointer natively (struct typerefs, closures, byte strings), freeing objects
that were still in use, and none for managed fields.
---
 crates/tribute-passes/src/native/rtti.rs | 36 +++++++++---------------
 1 file changed, 14 insertions(+), 22 deletions(-)

diff --git a/crates/tribute-passes/src/native/rtti.rs b/crates/tribute-passes/src/native/rtti.rs
index 0350d85..61af78e 100644
--- a/crates/tribute-passes/src/native/rtti.rs
+++ b/crates/tribute-passes/src/native/rtti.rs
@@ -36,7 +36,7 @@ use trunk_ir::dialect::adt;
 use trunk_ir::dialect::clif;
 use trunk_ir::dialect::core;
 use trunk_ir::location::Span;
-use trunk_ir::ops::DialectOp;
+use trunk_ir::ops::{DialectOp, DialectType};
 use trunk_ir::rewrite::{Module, TypeConverter};
 use trunk_ir::smallvec::smallvec;
 use trunk_ir::types::Location;
@@ -190,6 +190,15 @@ fn collect_types(ctx: &IrContext, module: Module, rtti_map: &mut RttiMap) {
     });
 }
 
+/// Whether an object owns the reference stored in a field of this type.
+///
+/// Storing a managed reference (`tribute_rt.anyref`) takes a reference of its
+/// own; pointers of other types are not counted when they are stored, so the
+/// object must not give a reference back for them.
+fn is_owned_field(ctx: &IrContext, field_ty: TypeRef) -> bool {
+    tribute_rt::Anyref::matches(ctx, field_ty) || core::Ptr::matches(ctx, field_ty)
+}
+
 /// Generate release function for a struct type.
 fn generate_release_function_for_struct(
     ctx: &mut IrContext,
@@ -223,16 +232,7 @@ fn generate_release_function_for_struct(
             if *name == func_ptr_sym {
                 return None;
             }
-            let native_ty = type_converter
-                .convert_type(ctx, *field_ty)
-                .unwrap_or(*field_ty);
-            let native_data = ctx.types.get(native_ty);
-            if native_data.dialect == Symbol::new("core") && native_data.name == Symbol::new("ptr")
-            {
-                Some(layout.field_offsets[i] as i32)
-            } else {
-                None
-            }
+            is_owned_field(ctx, *field_ty).then(|| layout.field_offsets[i] as i32)
         })
         .collect();
 
@@ -451,17 +451,9 @@ fn generate_release_function_for_enum(
             .iter()
             .enumerate()
             .filter_map(|(field_idx, field_ty)| {
-                let native_ty = type_converter
-                    .convert_type(ctx, *field_ty)
-                    .unwrap_or(*field_ty);
-                let native_data = ctx.types.get(native_ty);
-                if native_data.dialect == Symbol::new("core")
-                    && native_data.name == Symbol::new("ptr")
-                {
-                    Some((layout.fields_offset + variant_layout.field_offsets[field_idx]) as i32)
-                } else {
-                    None
-                }
+                is_owned_field(ctx, *field_ty).then(|| {
+                    (layout.fields_offset + variant_layout.field_offsets[field_idx]) as i32
+                })
             })
             .collect();
 
-- 
2.43.0


From c6a196e5819a58fd2bbf34b2cc35d0ca3cd13d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:27 +0000
Subject: [PATCH 20/21] fix: keep retain/release pairs around releases and
 calls

A release or a call between the two may drop the object that otherwise keeps
the value alive, so the pair is not redundant.
---
 crates/tribute-passes/src/native/rc_optimization.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/crates/tribute-passes/src/native/rc_optimization.rs b/crates/tribute-passes/src/native/rc_optimization.rs
index 6b315c7..8304a76 100644
--- a/crates/tribute-passes/src/native/rc_optimization.rs
+++ b/crates/tribute-passes/src/native/rc_optimization.rs
@@ -74,6 +74,12 @@ fn is_barrier_for(ctx: &IrContext, op: OpRef, ptr: ValueRef, retained: ValueRef)
         return true;
     }
 
+    // Releasing another value, or calling code that may do so, can drop the
+    // object that keeps this one alive; the retain is what protects it there.
+    if may_release_other_values(ctx, op) {
+        return true;
+    }
+
     ctx.op_operands(op)
         .iter()
         .enumerate()
@@ -83,6 +89,12 @@ fn is_barrier_for(ctx: &IrContext, op: OpRef, ptr: ValueRef, retained: ValueRef)
         })
 }
 
+fn may_release_other_values(ctx: &IrContext, op: OpRef) -> bool {
+    tribute_rt::Release::matches(ctx, op)
+        || clif::Call::matches(ctx, op)
+        || clif::CallIndirect::matches(ctx, op)
+}
+
 fn is_proven_non_escaping_use(ctx: &IrContext, op: OpRef, operand_index: usize) -> bool {
     // Reading through a reference does not transfer ownership.
     if clif::Load::matches(ctx, op) {
-- 
2.43.0


From 89d85a71ef235f10fbcb470f820527e2de204c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:11:48 +0000
Subject: [PATCH 21/21] fix: struct references keep one physical type on Wasm

wasm.structref (and the adt.typeref behind it) was registered under the
index of the first struct accessed through it, so a second struct type
passed to a function, or an enum value stored in a field typed only by
its writers, made the emitted module invalid.
---
 .../src/emit/gc_types_collection.rs           | 27 +++++++++++++------
 .../src/emit/handlers/struct_handlers.rs      |  2 +-
 .../trunk-ir-wasm-backend/src/emit/helpers.rs | 24 ++++++++++-------
 3 files changed, 35 insertions(+), 18 deletions(-)

diff --git a/crates/trunk-ir-wasm-backend/src/emit/gc_types_collection.rs b/crates/trunk-ir-wasm-backend/src/emit/gc_types_collection.rs
index c3aee1c..be26a29 100644
--- a/crates/trunk-ir-wasm-backend/src/emit/gc_types_collection.rs
+++ b/crates/trunk-ir-wasm-backend/src/emit/gc_types_collection.rs
@@ -80,7 +80,18 @@ fn try_get_builder(builders: &mut Vec<GcTypeBuilder>, idx: u32) -> Option<&mut G
 }
 
 /// Register a type in the type_idx_by_type map
-fn register_type(type_idx_by_type: &mut HashMap<TypeRef, u32>, idx: u32, ty: TypeRef) {
+///
+/// A reference to some struct (`wasm.structref`, or the `adt.typeref` it stands
+/// for) never denotes the one concrete type it happens to be accessed as.
+fn register_type(
+    ctx: &IrContext,
+    type_idx_by_type: &mut HashMap<TypeRef, u32>,
+    idx: u32,
+    ty: TypeRef,
+) {
+    if helpers::is_abstract_struct_ref(ctx, ty) {
+        return;
+    }
     type_idx_by_type.entry(ty).or_insert(idx);
 }
 
@@ -394,7 +405,7 @@ pub(crate) fn collect_gc_types(
                 }
 
                 if let Some(result_ty) = result_type {
-                    register_type(&mut type_idx_by_type, type_idx, result_ty);
+                    register_type(ctx, &mut type_idx_by_type, type_idx, result_ty);
                 }
                 for (field_idx, &value) in operands.iter().enumerate() {
                     let ty = helpers::value_type(ctx, value);
@@ -426,7 +437,7 @@ pub(crate) fn collect_gc_types(
                 let operands = ctx.op_operands(op).to_vec();
                 if let Some(&first_operand) = operands.first() {
                     let ty = helpers::value_type(ctx, first_operand);
-                    register_type(&mut type_idx_by_type, type_idx, ty);
+                    register_type(ctx, &mut type_idx_by_type, type_idx, ty);
                 }
                 // Record field type from result type
                 // Note: type variables should be resolved to concrete types before emit
@@ -456,7 +467,7 @@ pub(crate) fn collect_gc_types(
                 }
                 if let Some(&first_operand) = operands.first() {
                     let ty = helpers::value_type(ctx, first_operand);
-                    register_type(&mut type_idx_by_type, type_idx, ty);
+                    register_type(ctx, &mut type_idx_by_type, type_idx, ty);
                 }
                 if let Some(&second_operand) = operands.get(1) {
                     let ty = helpers::value_type(ctx, second_operand);
@@ -476,7 +487,7 @@ pub(crate) fn collect_gc_types(
             if let Some(builder) = try_get_builder(&mut builders, type_idx) {
                 builder.kind = GcKind::Array;
                 if let Some(&result_ty) = result_types.first() {
-                    register_type(&mut type_idx_by_type, type_idx, result_ty);
+                    register_type(ctx, &mut type_idx_by_type, type_idx, result_ty);
                 }
                 let operands = ctx.op_operands(op).to_vec();
                 if let Some(&second_operand) = operands.get(1) {
@@ -498,7 +509,7 @@ pub(crate) fn collect_gc_types(
                 builder.kind = GcKind::Array;
                 if let Some(&first_operand) = operands.first() {
                     let ty = helpers::value_type(ctx, first_operand);
-                    register_type(&mut type_idx_by_type, type_idx, ty);
+                    register_type(ctx, &mut type_idx_by_type, type_idx, ty);
                 }
                 // Record element type from result type
                 // Note: type variables should be resolved to concrete types before emit
@@ -516,7 +527,7 @@ pub(crate) fn collect_gc_types(
                 builder.kind = GcKind::Array;
                 if let Some(&first_operand) = operands.first() {
                     let ty = helpers::value_type(ctx, first_operand);
-                    register_type(&mut type_idx_by_type, type_idx, ty);
+                    register_type(ctx, &mut type_idx_by_type, type_idx, ty);
                 }
                 if let Some(&third_operand) = operands.get(2) {
                     let ty = helpers::value_type(ctx, third_operand);
@@ -546,7 +557,7 @@ pub(crate) fn collect_gc_types(
                 continue;
             };
             if let Some(&result_ty) = result_types.first() {
-                register_type(&mut type_idx_by_type, type_idx, result_ty);
+                register_type(ctx, &mut type_idx_by_type, type_idx, result_ty);
             }
             if let Some(builder) = try_get_builder(&mut builders, type_idx)
                 && builder.kind == GcKind::Unknown
diff --git a/crates/trunk-ir-wasm-backend/src/emit/handlers/struct_handlers.rs b/crates/trunk-ir-wasm-backend/src/emit/handlers/struct_handlers.rs
index fdbc70b..77daa51 100644
--- a/crates/trunk-ir-wasm-backend/src/emit/handlers/struct_handlers.rs
+++ b/crates/trunk-ir-wasm-backend/src/emit/handlers/struct_handlers.rs
@@ -57,7 +57,7 @@ pub(crate) fn handle_struct_get(
         let ty = value_type(ctx, *op_val);
         if helpers::is_type(ctx, ty, "wasm", "anyref") {
             Some("anyref")
-        } else if helpers::is_type(ctx, ty, "wasm", "structref") {
+        } else if helpers::is_abstract_struct_ref(ctx, ty) {
             Some("structref")
         } else {
             None
diff --git a/crates/trunk-ir-wasm-backend/src/emit/helpers.rs b/crates/trunk-ir-wasm-backend/src/emit/helpers.rs
index dda91ad..0a577ea 100644
--- a/crates/trunk-ir-wasm-backend/src/emit/helpers.rs
+++ b/crates/trunk-ir-wasm-backend/src/emit/helpers.rs
@@ -198,17 +198,17 @@ pub(crate) fn type_to_valtype(
             nullable: true,
             heap_type: HeapType::Concrete(type_idx),
         }))
+    } else if is_abstract_struct_ref(ctx, ty) {
+        Ok(ValType::Ref(RefType {
+            nullable: true,
+            heap_type: HeapType::Abstract {
+                shared: false,
+                ty: AbstractHeapType::Struct,
+            },
+        }))
     } else if ctx.types.get(ty).dialect == Symbol::new("wasm") {
         let name = ctx.types.get(ty).name;
-        if name == Symbol::new("structref") {
-            Ok(ValType::Ref(RefType {
-                nullable: true,
-                heap_type: HeapType::Abstract {
-                    shared: false,
-                    ty: AbstractHeapType::Struct,
-                },
-            }))
-        } else if name == Symbol::new("funcref") {
+        if name == Symbol::new("funcref") {
             Ok(ValType::Ref(RefType::FUNCREF))
         } else if name == Symbol::new("anyref") {
             Ok(ValType::Ref(RefType::ANYREF))
@@ -268,6 +268,12 @@ pub(crate) fn type_to_valtype(
     }
 }
 
+/// Whether `ty` is a reference to a struct whose concrete type is not part of
+/// its physical representation.
+pub(crate) fn is_abstract_struct_ref(ctx: &IrContext, ty: TypeRef) -> bool {
+    is_type(ctx, ty, "wasm", "structref") || is_type(ctx, ty, "adt", "typeref")
+}
+
 fn is_bytes_array_ref(ctx: &IrContext, ty: TypeRef) -> bool {
     let reference = ctx.types.get(ty);
     if reference.dialect != Symbol::new("core")
-- 
2.43.0

