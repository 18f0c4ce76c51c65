From 20e1694e898af8007ff599b4325dd6af0275278f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:19 +0000
Subject: [PATCH 01/15] fix: accept comments between any tokens and diagnose
 array sizes out of range

Comments inside a construct shifted the inner pairs the parser reads by
position, an ordinary comment detached documentation from its method, and
an array size of 0 or above 65535 was unwrapped unchecked in release builds.
---
 idlc_ast/src/pst.rs | 63 ++++++++++++++++++++++++++-------------------
 1 file changed, 37 insertions(+), 26 deletions(-)

diff --git a/idlc_ast/src/pst.rs b/idlc_ast/src/pst.rs
index dc7d305..b1c7f6e 100644
--- a/idlc_ast/src/pst.rs
+++ b/idlc_ast/src/pst.rs
@@ -54,6 +54,21 @@ macro_rules! ast_unwrap {
     }};
 }
 
+/// Inner pairs of a construct without the comments the grammar allows between
+/// any two of its tokens.
+fn tokens(pair: Pair<'_, Rule>) -> impl Iterator<Item = Pair<'_, Rule>> {
+    pair.into_inner().filter(|p| p.as_rule() != Rule::COMMENT)
+}
+
+/// Array sizes range from 1 to [`u16::MAX`].
+fn parse_array_size(pair: Pair<'_, Rule>) -> Count {
+    debug_assert_eq!(pair.as_rule(), Rule::bounded_array);
+    let size = ast_unwrap!(tokens(pair).next()).as_str();
+    size.parse().unwrap_or_else(|e| {
+        idlc_errors::unrecoverable!("'{size}' isn't a valid array size [{e}]")
+    })
+}
+
 impl From<pest::Span<'_>> for Span {
     fn from(value: pest::Span) -> Self {
         Self {
@@ -84,11 +99,11 @@ impl InterfaceNode {
         match pair.as_rule() {
             Rule::error => Self::Error(Ident {
                 span: pair.as_span().into(),
-                ident: pair.into_inner().nth(1).unwrap().as_str().to_string(),
+                ident: ast_unwrap!(tokens(pair).nth(1)).as_str().to_string(),
             }),
             Rule::r#const => Self::Const(parse_const(pair, allow_undefined_behavior)),
             Rule::function => {
-                let mut inner = pair.into_inner();
+                let mut inner = tokens(pair);
                 let mut attributes = Vec::new();
                 let function_keyword = ast_unwrap!(inner.next());
                 for attribute in function_keyword.into_inner() {
@@ -139,7 +154,7 @@ impl<'a> From<Pair<'a, Rule>> for FunctionAttribute {
 
 impl<'a> From<Pair<'a, Rule>> for Param {
     fn from(value: Pair<'a, Rule>) -> Self {
-        let mut params = value.into_inner();
+        let mut params = tokens(value);
         let mutability = ast_unwrap!(params.next()).as_str();
         let r#type = ast_unwrap!(params.next());
         let ident = ast_unwrap!(params.next()).into();
@@ -178,7 +193,7 @@ impl From<Pair<'_, Rule>> for Type {
 impl From<Pair<'_, Rule>> for ParamTypeIn {
     fn from(rule: Pair<Rule>) -> Self {
         debug_assert_eq!(rule.as_rule(), Rule::param_type);
-        let mut inner = rule.into_inner();
+        let mut inner = tokens(rule);
         let r#type = Type::from(ast_unwrap!(inner.next()));
         if let Type::Custom(r#type) = &r#type {
             if r#type == "buffer" {
@@ -190,8 +205,7 @@ impl From<Pair<'_, Rule>> for ParamTypeIn {
             match pair.as_rule() {
                 Rule::unbounded_array => Self::Array(r#type, None),
                 Rule::bounded_array => {
-                    let array_len: Count = ast_unwrap!(pair.into_inner().as_str().parse());
-                    Self::Array(r#type, Some(array_len))
+                    Self::Array(r#type, Some(parse_array_size(pair)))
                 }
                 _ => unreachable!(),
             }
@@ -203,7 +217,7 @@ impl From<Pair<'_, Rule>> for ParamTypeIn {
 impl From<Pair<'_, Rule>> for ParamTypeOut {
     fn from(rule: Pair<Rule>) -> Self {
         debug_assert_eq!(rule.as_rule(), Rule::param_type);
-        let mut inner = rule.into_inner();
+        let mut inner = tokens(rule);
         let r#type = Type::from(ast_unwrap!(inner.next()));
         if let Type::Custom(r#type) = &r#type {
             if r#type == "buffer" {
@@ -215,8 +229,7 @@ impl From<Pair<'_, Rule>> for ParamTypeOut {
             match pair.as_rule() {
                 Rule::unbounded_array => Self::Array(r#type, None),
                 Rule::bounded_array => {
-                    let array_len: Count = ast_unwrap!(pair.into_inner().as_str().parse());
-                    Self::Array(r#type, Some(array_len))
+                    Self::Array(r#type, Some(parse_array_size(pair)))
                 }
                 _ => unreachable!(),
             }
@@ -253,19 +266,18 @@ fn parse_include(pair: Pair<Rule>) -> Rc<Node> {
 }
 
 fn parse_struct(pair: Pair<Rule>) -> Rc<Node> {
-    let mut struct_pst = pair.into_inner().skip(1);
+    let mut struct_pst = tokens(pair).skip(1);
     let ident: Ident = ast_unwrap!(struct_pst.next()).into();
     let mut fields = Vec::<StructField>::new();
     for rule in struct_pst {
         match rule.as_rule() {
             Rule::struct_field => {
-                let mut iter = rule.into_inner();
+                let mut iter = tokens(rule);
                 let r#type = Type::from(ast_unwrap!(iter.next()));
                 let next = ast_unwrap!(iter.next());
                 let (elem, ident) = match next.as_rule() {
                     Rule::bounded_array => {
-                        let array_len: Count =
-                            ast_unwrap!(next.clone().into_inner().as_str().parse());
+                        let array_len = parse_array_size(next.clone());
                         let ident = ast_unwrap!(iter.next()).as_str().to_string();
                         (array_len, ident)
                     }
@@ -284,9 +296,6 @@ fn parse_struct(pair: Pair<Rule>) -> Rc<Node> {
                     val: (r#type, elem),
                 });
             }
-            Rule::COMMENT => {
-                // Currently unsupported for structs due to varying styles
-            }
             r => unreachable!("Unknown rule `{r:?}`"),
         }
     }
@@ -294,7 +303,7 @@ fn parse_struct(pair: Pair<Rule>) -> Rc<Node> {
 }
 
 fn parse_const(pair: Pair<Rule>, allow_undefined_behavior: bool) -> Const {
-    let mut inner = pair.into_inner().skip(1);
+    let mut inner = tokens(pair).skip(1);
 
     let ty = ast_unwrap!(inner.next()).as_str();
     let ident = ast_unwrap!(inner.next()).into();
@@ -317,15 +326,13 @@ fn parse_const(pair: Pair<Rule>, allow_undefined_behavior: bool) -> Const {
 fn parse_interface(pair: Pair<Rule>, allow_undefined_behavior: bool) -> Rc<Node> {
     let span = Span::from(pair.as_span());
     let mut interface = pair.into_inner().skip(1);
-    let mut pairs = ast_unwrap!(interface.next()).into_inner();
+    let iname = ast_unwrap!(interface.find(|p| p.as_rule() == Rule::iname));
+    let mut pairs = tokens(iname);
     let ident = ast_unwrap!(pairs.next()).as_str().to_string();
-    let base = pairs
-        .next()
-        .filter(|base| base.as_rule() == Rule::ident)
-        .map(|base| Ident {
-            span: base.as_span().into(),
-            ident: base.as_str().to_string(),
-        });
+    let base = pairs.next().map(|base| Ident {
+        span: base.as_span().into(),
+        ident: base.as_str().to_string(),
+    });
 
     let mut iface_nodes = Vec::new();
     let mut comment: Option<Documentation> = None;
@@ -337,7 +344,11 @@ fn parse_interface(pair: Pair<Rule>, allow_undefined_behavior: bool) -> Rc<Node>
                 iface_nodes.push(node);
             }
             Rule::COMMENT => {
-                comment = Documentation::try_from(rule).ok();
+                // Only documentation is attached to the next node, ordinary
+                // comments in between don't detach it.
+                if let Ok(doc) = Documentation::try_from(rule) {
+                    comment = Some(doc);
+                }
             }
             _ => unreachable!(),
         }
-- 
2.43.0


From d2f990462e8847e0186a4065b5189c2e58fd3e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:33 +0000
Subject: [PATCH 02/15] fix: an untyped object field is aligned like the pair
 of pointers it is

Structs holding 'interface' were refused unless the field sat on a 16 byte
boundary, while the same field with a named interface type needed 8.
---
 idlc_ast/src/ast.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/idlc_ast/src/ast.rs b/idlc_ast/src/ast.rs
index f9f1ee8..19388f7 100644
--- a/idlc_ast/src/ast.rs
+++ b/idlc_ast/src/ast.rs
@@ -218,7 +218,8 @@ impl Type {
 
     #[must_use]
     pub const fn interface_align() -> usize {
-        Self::interface_size()
+        // An object is a pair of pointers.
+        Primitive::Uint64.alignment()
     }
 }
 
-- 
2.43.0


From e88d6c3942c407a56ceb0da418e87def1bb68626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:46 +0000
Subject: [PATCH 03/15] fix: constants keep their value and type in every
 backend

FLOAT() and DOUBLE() don't exist, a float needs a fraction in Rust and an f
in Java, hexadecimal floats were refused or misread, the smallest int32 and
int64 don't fit INT32_C/INT64_C, leading zeros made literals octal in C and
Java, and unsigned or 64 bit literals overflowed their Java types.
---
 idlc_ast/src/ast.rs                    | 37 ++++++++++++++++++++--
 idlc_codegen_c/src/globals.rs          |  7 ++---
 idlc_codegen_c/src/interface/mod.rs    | 12 +++----
 idlc_codegen_c/src/types.rs            | 23 ++++++++++++--
 idlc_codegen_cpp/src/generator.rs      |  9 ++----
 idlc_codegen_cpp/src/interface/mod.rs  | 22 ++++++++-----
 idlc_codegen_java/src/globals.rs       |  4 +--
 idlc_codegen_java/src/interface/mod.rs |  4 +--
 idlc_codegen_java/src/types.rs         | 19 ++++++++++++
 idlc_mir/src/mir.rs                    | 43 ++++++++++++++++++++++++--
 10 files changed, 145 insertions(+), 35 deletions(-)

diff --git a/idlc_ast/src/ast.rs b/idlc_ast/src/ast.rs
index 19388f7..e530b38 100644
--- a/idlc_ast/src/ast.rs
+++ b/idlc_ast/src/ast.rs
@@ -237,6 +237,38 @@ pub enum Primitive {
     Float64,
 }
 
+/// Decimal form with a fractional part of the value of a float constant, which
+/// may be written as a decimal or hexadecimal integer too.
+#[must_use]
+pub fn float_literal(value: &str) -> String {
+    let (sign, magnitude) = value
+        .strip_prefix('-')
+        .map_or(("", value), |magnitude| ("-", magnitude));
+    let magnitude = magnitude
+        .strip_prefix("0x")
+        .map_or_else(|| magnitude.to_string(), hex_to_decimal);
+    let fraction = if magnitude.contains('.') { "" } else { ".0" };
+    format!("{sign}{magnitude}{fraction}")
+}
+
+fn hex_to_decimal(hex: &str) -> String {
+    // Least significant digit first.
+    let mut decimal = vec![0u8];
+    for digit in hex.chars().filter_map(|c| c.to_digit(16)) {
+        let mut carry = digit;
+        for d in &mut decimal {
+            let value = u32::from(*d) * 16 + carry;
+            *d = (value % 10) as u8;
+            carry = value / 10;
+        }
+        while carry > 0 {
+            decimal.push((carry % 10) as u8);
+            carry /= 10;
+        }
+    }
+    decimal.iter().rev().map(|d| char::from(b'0' + d)).collect()
+}
+
 impl Primitive {
     #[must_use]
     pub const fn size(self) -> usize {
@@ -257,6 +289,7 @@ impl Primitive {
     /// Ensures the type is checked for range
     pub(crate) fn new(r#type: &str, value: &str) -> Result<Self, Error> {
         let value = value.trim();
+        let literal = value;
         let radix = if value.starts_with("0x") || value.starts_with("-0x") {
             16
         } else {
@@ -297,13 +330,13 @@ impl Primitive {
                 Ok(Self::Int64)
             }
             "float32" => {
-                if value.parse::<f32>()?.is_infinite() {
+                if float_literal(literal).parse::<f32>()?.is_infinite() {
                     return Err(Error::FloatIsInfinite);
                 }
                 Ok(Self::Float32)
             }
             "float64" => {
-                if value.parse::<f64>()?.is_infinite() {
+                if float_literal(literal).parse::<f64>()?.is_infinite() {
                     return Err(Error::FloatIsInfinite);
                 }
                 Ok(Self::Float64)
diff --git a/idlc_codegen_c/src/globals.rs b/idlc_codegen_c/src/globals.rs
index c73fbe9..d4181c5 100644
--- a/idlc_codegen_c/src/globals.rs
+++ b/idlc_codegen_c/src/globals.rs
@@ -3,7 +3,7 @@
 
 use idlc_mir::{Const, StructInner};
 
-use crate::types::{change_const_primitive, change_primitive};
+use crate::types::{change_primitive, const_expression};
 
 pub fn emit_include(include: &std::path::Path) -> String {
     let inc_name = include.display().to_string().replace(".idl", "");
@@ -35,8 +35,7 @@ pub fn emit_struct(r#struct: &StructInner) -> String {
 
 pub fn emit_const(r#const: &Const) -> String {
     let ident = r#const.ident.to_string();
-    let ty = change_const_primitive(r#const.r#type);
-    let value = &r#const.value;
+    let value = const_expression(r#const);
 
-    format!("#define {ident} {ty}({value})\n\n")
+    format!("#define {ident} {value}\n\n")
 }
diff --git a/idlc_codegen_c/src/interface/mod.rs b/idlc_codegen_c/src/interface/mod.rs
index 5e00404..15c71a7 100644
--- a/idlc_codegen_c/src/interface/mod.rs
+++ b/idlc_codegen_c/src/interface/mod.rs
@@ -6,7 +6,7 @@ use idlc_mir::{Interface, InterfaceNode};
 pub mod functions;
 pub mod variable_names;
 
-use crate::types::change_const_primitive;
+use crate::types::const_expression;
 
 pub fn emit_interface_impl(interface: &Interface, is_no_typed_objects: bool) -> String {
     let ident = interface.ident.to_string();
@@ -21,11 +21,10 @@ pub fn emit_interface_impl(interface: &Interface, is_no_typed_objects: bool) ->
         iface.nodes.iter().for_each(|node| match node {
             InterfaceNode::Const(c) => {
                 constants.push_str(&format!(
-                    "#define {}_{} {}({})\n",
+                    "#define {}_{} {}\n",
                     ident,
                     c.ident,
-                    change_const_primitive(c.r#type),
-                    c.value
+                    const_expression(c)
                 ));
             }
             InterfaceNode::Error(e) => {
@@ -59,11 +58,10 @@ pub fn emit_interface_impl(interface: &Interface, is_no_typed_objects: bool) ->
         match node {
             InterfaceNode::Const(c) => {
                 constants.push_str(&format!(
-                    "#define {}_{} {}({})\n",
+                    "#define {}_{} {}\n",
                     ident,
                     c.ident,
-                    change_const_primitive(c.r#type),
-                    c.value
+                    const_expression(c)
                 ));
             }
             InterfaceNode::Error(e) => {
diff --git a/idlc_codegen_c/src/types.rs b/idlc_codegen_c/src/types.rs
index 1c7c2de..a9e1daf 100644
--- a/idlc_codegen_c/src/types.rs
+++ b/idlc_codegen_c/src/types.rs
@@ -1,7 +1,7 @@
 // Copyright (c) 2024, Qualcomm Innovation Center, Inc. All rights reserved.
 // SPDX-License-Identifier: BSD-3-Clause
 
-pub const fn change_const_primitive(primitive: idlc_mir::Primitive) -> &'static str {
+const fn const_macro(primitive: idlc_mir::Primitive) -> &'static str {
     match primitive {
         idlc_mir::Primitive::Uint8 => "UINT8_C",
         idlc_mir::Primitive::Uint16 => "UINT16_C",
@@ -11,8 +11,25 @@ pub const fn change_const_primitive(primitive: idlc_mir::Primitive) -> &'static
         idlc_mir::Primitive::Int16 => "INT16_C",
         idlc_mir::Primitive::Int32 => "INT32_C",
         idlc_mir::Primitive::Int64 => "INT64_C",
-        idlc_mir::Primitive::Float32 => "FLOAT",
-        idlc_mir::Primitive::Float64 => "DOUBLE",
+        idlc_mir::Primitive::Float32 | idlc_mir::Primitive::Float64 => "",
+    }
+}
+
+/// Expression with the value and type of the constant.
+pub fn const_expression(r#const: &idlc_mir::Const) -> String {
+    let ty = const_macro(r#const.r#type);
+    let value = &r#const.value;
+    match (r#const.r#type, r#const.integer()) {
+        (idlc_mir::Primitive::Float32, _) => format!("({value}f)"),
+        (idlc_mir::Primitive::Float64, _) => format!("({value})"),
+        // The magnitude of the minimum doesn't fit the type.
+        (idlc_mir::Primitive::Int32, Some(v)) if v == i128::from(i32::MIN) => {
+            format!("(-{ty}({}) - 1)", i32::MAX)
+        }
+        (idlc_mir::Primitive::Int64, Some(v)) if v == i128::from(i64::MIN) => {
+            format!("(-{ty}({}) - 1)", i64::MAX)
+        }
+        _ => format!("{ty}({value})"),
     }
 }
 
diff --git a/idlc_codegen_cpp/src/generator.rs b/idlc_codegen_cpp/src/generator.rs
index db09835..c67b87a 100644
--- a/idlc_codegen_cpp/src/generator.rs
+++ b/idlc_codegen_cpp/src/generator.rs
@@ -2,7 +2,7 @@
 // SPDX-License-Identifier: BSD-3-Clause
 
 use idlc_codegen_c::globals::emit_struct;
-use idlc_codegen_c::types::{change_const_primitive, change_primitive};
+use idlc_codegen_c::types::{change_primitive, const_expression};
 use idlc_mir::Node;
 
 use crate::interface::{emit_interface_impl, emit_interface_invoke};
@@ -24,12 +24,9 @@ impl idlc_codegen::SplitInvokeGenerator for Generator {
                 Node::Const(c) => {
                     let ident = c.ident.to_string();
                     let cnt_ty = change_primitive(c.r#type);
-                    let ty = change_const_primitive(c.r#type);
-                    let value = &c.value;
+                    let value = const_expression(c);
 
-                    result.push_str(&format!(
-                        "static const {cnt_ty} {ident} = {ty}({value});\n\n"
-                    ));
+                    result.push_str(&format!("static const {cnt_ty} {ident} = {value};\n\n"));
                 }
                 Node::Struct(s) => {
                     result.push_str(&emit_struct(s.as_ref()));
diff --git a/idlc_codegen_cpp/src/interface/mod.rs b/idlc_codegen_cpp/src/interface/mod.rs
index 419ffca..c2dc4f7 100644
--- a/idlc_codegen_cpp/src/interface/mod.rs
+++ b/idlc_codegen_cpp/src/interface/mod.rs
@@ -5,7 +5,7 @@ use idlc_mir::{Interface, InterfaceNode};
 
 mod functions;
 
-use idlc_codegen_c::types::{change_const_primitive, change_primitive};
+use idlc_codegen_c::types::{change_primitive, const_expression};
 
 pub fn emit_interface_impl(interface: &Interface) -> String {
     let ident = interface.ident.to_string();
@@ -24,11 +24,11 @@ pub fn emit_interface_impl(interface: &Interface) -> String {
             InterfaceNode::Const(c) => {
                 constants.push_str(&format!(
                     r#"
-    static const {} {} = {}({});"#,
+    static {} {} {} = {};"#,
+                    const_specifier(c.r#type),
                     change_primitive(c.r#type),
                     c.ident,
-                    change_const_primitive(c.r#type),
-                    c.value
+                    const_expression(c)
                 ));
             }
             InterfaceNode::Error(e) => {
@@ -61,11 +61,11 @@ pub fn emit_interface_impl(interface: &Interface) -> String {
             InterfaceNode::Const(c) => {
                 constants.push_str(&format!(
                     r#"
-    static const {} {} = {}({});"#,
+    static {} {} {} = {};"#,
+                    const_specifier(c.r#type),
                     change_primitive(c.r#type),
                     c.ident,
-                    change_const_primitive(c.r#type),
-                    c.value
+                    const_expression(c)
                 ));
             }
             InterfaceNode::Error(e) => {
@@ -195,3 +195,11 @@ class {ident}ImplBase : protected ImplBase, public I{ident} {{
 "#
     )
 }
+
+/// Only integers can be initialised in the class without being `constexpr`.
+const fn const_specifier(primitive: idlc_mir::Primitive) -> &'static str {
+    match primitive {
+        idlc_mir::Primitive::Float32 | idlc_mir::Primitive::Float64 => "constexpr",
+        _ => "const",
+    }
+}
diff --git a/idlc_codegen_java/src/globals.rs b/idlc_codegen_java/src/globals.rs
index f6aec73..4eaa45e 100644
--- a/idlc_codegen_java/src/globals.rs
+++ b/idlc_codegen_java/src/globals.rs
@@ -3,7 +3,7 @@
 
 use idlc_mir::{Const, StructInner};
 
-use crate::types::change_primitive;
+use crate::types::{change_primitive, const_expression};
 
 pub fn emit_struct(r#struct: &StructInner) -> String {
     let mut contents = String::new();
@@ -45,7 +45,7 @@ pub fn emit_struct(r#struct: &StructInner) -> String {
 pub fn emit_const(r#const: &Const) -> String {
     let ident = r#const.ident.to_string(); // Const ident should be uppercase, but leave it for now for backward compatibility.
     let ty = change_primitive(r#const.r#type);
-    let value = &r#const.value;
+    let value = const_expression(r#const);
 
     format!(
         r#"{ty} {ident} = {value};
diff --git a/idlc_codegen_java/src/interface/mod.rs b/idlc_codegen_java/src/interface/mod.rs
index ea30fcd..69f4a8e 100644
--- a/idlc_codegen_java/src/interface/mod.rs
+++ b/idlc_codegen_java/src/interface/mod.rs
@@ -1,7 +1,7 @@
 // Copyright (c) 2024, Qualcomm Innovation Center, Inc. All rights reserved.
 // SPDX-License-Identifier: BSD-3-Clause
 
-use crate::types::change_primitive;
+use crate::types::{change_primitive, const_expression};
 
 use idlc_mir::{Interface, InterfaceNode};
 
@@ -24,7 +24,7 @@ pub fn emit_interface(interface: &Interface, input_name: &str) -> String {
             InterfaceNode::Const(r#const) => {
                 let const_ident = r#const.ident.to_uppercase();
                 let ty = change_primitive(r#const.r#type);
-                let value = &r#const.value;
+                let value = const_expression(r#const);
                 constants.push_str(&format!(
                     r#"{ty} {ident}_{const_ident} = {value};
     "#
diff --git a/idlc_codegen_java/src/types.rs b/idlc_codegen_java/src/types.rs
index a7bcf58..8d7458c 100644
--- a/idlc_codegen_java/src/types.rs
+++ b/idlc_codegen_java/src/types.rs
@@ -15,6 +15,25 @@ pub const fn change_primitive(primitive: idlc_mir::Primitive) -> &'static str {
     }
 }
 
+/// Expression with the value of the constant. Java has no unsigned integers
+/// besides `char`, hence values are represented modulo the width of the type.
+pub fn const_expression(r#const: &idlc_mir::Const) -> String {
+    let value = &r#const.value;
+    let Some(v) = r#const.integer() else {
+        return match r#const.r#type {
+            idlc_mir::Primitive::Float32 => format!("{value}f"),
+            _ => value.to_string(),
+        };
+    };
+    match change_primitive(r#const.r#type) {
+        "byte" if i8::try_from(v).is_err() => format!("(byte)({value})"),
+        "char" if u16::try_from(v).is_err() => format!("(char)({value})"),
+        "int" if i32::try_from(v).is_err() => (v as i32).to_string(),
+        "long" if i32::try_from(v).is_err() => format!("{}L", v as i64),
+        _ => value.to_string(),
+    }
+}
+
 pub fn capitalize_first_letter(s: &str) -> String {
     if s == "byte" {
         return "".to_string();
diff --git a/idlc_mir/src/mir.rs b/idlc_mir/src/mir.rs
index c72aa59..dcee3cf 100644
--- a/idlc_mir/src/mir.rs
+++ b/idlc_mir/src/mir.rs
@@ -101,6 +101,25 @@ pub struct Const {
     pub value: String,
 }
 
+impl Const {
+    /// Value of an integer constant.
+    #[must_use]
+    pub fn integer(&self) -> Option<i128> {
+        if matches!(self.r#type, Primitive::Float32 | Primitive::Float64) {
+            return None;
+        }
+        let (negative, magnitude) = self
+            .value
+            .strip_prefix('-')
+            .map_or((false, self.value.as_str()), |magnitude| (true, magnitude));
+        let value = magnitude.strip_prefix("0x").map_or_else(
+            || magnitude.parse::<i128>(),
+            |digits| i128::from_str_radix(digits, 16),
+        );
+        value.ok().map(|v| if negative { -v } else { v })
+    }
+}
+
 pub type Count = std::num::NonZeroU16;
 #[derive(Debug, Clone, PartialEq, Eq, Hash)]
 pub enum Type {
@@ -614,12 +633,32 @@ impl From<&idlc_ast::Primitive> for Primitive {
     }
 }
 
+/// Integers with leading zeros are octal in some of the target languages.
+fn decimal_without_leading_zeros(value: &str) -> String {
+    let (sign, magnitude) = value
+        .strip_prefix('-')
+        .map_or(("", value), |magnitude| ("-", magnitude));
+    let digits = magnitude.trim_start_matches('0');
+    if digits.starts_with(|c: char| c.is_ascii_digit()) {
+        format!("{sign}{digits}")
+    } else if digits.is_empty() {
+        format!("{sign}0")
+    } else {
+        value.to_string()
+    }
+}
+
 impl From<&idlc_ast::Const> for Const {
     fn from(const_: &idlc_ast::Const) -> Self {
+        let r#type = Primitive::from(&const_.r#type);
+        let value = match r#type {
+            Primitive::Float32 | Primitive::Float64 => idlc_ast::float_literal(&const_.value),
+            _ => decimal_without_leading_zeros(&const_.value),
+        };
         Self {
             ident: const_.ident.clone(),
-            r#type: Primitive::from(&const_.r#type),
-            value: const_.value.to_string(),
+            r#type,
+            value,
         }
     }
 }
-- 
2.43.0


From 296752a65ece59fcafb53bea34e427b767f932b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:52 +0000
Subject: [PATCH 04/15] fix: check every loaded file once, refuse over-large
 structs and clashing names

---
 idlc/src/lib.rs                        | 12 ++++++++-
 idlc/src/main.rs                       | 10 ++++++--
 idlc_ast_passes/src/cycles.rs          | 34 ++++++++++++++++++++------
 idlc_ast_passes/src/idl_store.rs       | 28 ++++++++++++++++++---
 idlc_ast_passes/src/struct_verifier.rs | 10 +++++++-
 5 files changed, 80 insertions(+), 14 deletions(-)

diff --git a/idlc/src/lib.rs b/idlc/src/lib.rs
index f4d5160..a1de68f 100644
--- a/idlc/src/lib.rs
+++ b/idlc/src/lib.rs
@@ -5,6 +5,7 @@ use idlc_ast_passes::{cycles, functions, idl_store::IDLStore, struct_verifier, C
 use idlc_codegen::{Descriptor, Generator};
 use idlc_errors::trace;
 use idlc_mir::mir;
+use idlc_mir_passes::{interface_verifier, MirCompilerPass};
 
 #[derive(Debug, Clone, Copy, PartialEq, Eq)]
 pub enum Language {
@@ -24,7 +25,10 @@ impl Language {
         idl_store.run_pass(&ast)?;
 
         trace!("Running `FunctionDuplicateParam` pass");
-        functions::Functions::new().run_pass(&ast)?;
+        let included_asts = idl_store.asts();
+        for ast in &included_asts {
+            functions::Functions::new().run_pass(ast)?;
+        }
 
         trace!("Running `CycleChecking` pass");
         let struct_ordering = cycles::Cycles::new(&idl_store).run_pass(&ast)?;
@@ -34,6 +38,12 @@ impl Language {
 
         let mir = mir::parse_to_mir(&ast, &mut idl_store);
 
+        trace!("Verifying interfaces");
+        for ast in &included_asts {
+            let mir = mir::parse_to_mir(ast, &mut idl_store);
+            interface_verifier::InterfaceVerifier::new(&mir).run_pass();
+        }
+
         match self {
             Self::Rust => Ok(idlc_codegen_rust::Generator::generate(&mir)),
         }
diff --git a/idlc/src/main.rs b/idlc/src/main.rs
index 8b4bc25..69ca237 100644
--- a/idlc/src/main.rs
+++ b/idlc/src/main.rs
@@ -132,8 +132,11 @@ fn main() {
 
     timer::time!(check(idl_store.run_pass(&ast)), "`IncludeChecker` pass");
 
+    let included_asts = idl_store.asts();
     timer::time!(
-        check(idlc_ast_passes::functions::Functions::new().run_pass(&ast)),
+        for ast in &included_asts {
+            check(idlc_ast_passes::functions::Functions::new().run_pass(ast));
+        },
         "`FunctionDuplicateParam` pass"
     );
 
@@ -157,7 +160,10 @@ fn main() {
     }
 
     trace!("Verifying interfaces");
-    interface_verifier::InterfaceVerifier::new(&mir).run_pass();
+    for ast in &included_asts {
+        let mir = mir::parse_to_mir(ast, &mut idl_store);
+        interface_verifier::InterfaceVerifier::new(&mir).run_pass();
+    }
 
     let marking_cnt = if args.marking.is_some() {
         std::fs::read_to_string(args.marking.unwrap()).expect("Failed to read marking file")
diff --git a/idlc_ast_passes/src/cycles.rs b/idlc_ast_passes/src/cycles.rs
index 6a54bc7..4c9fd71 100644
--- a/idlc_ast_passes/src/cycles.rs
+++ b/idlc_ast_passes/src/cycles.rs
@@ -1,16 +1,17 @@
 // Copyright (c) 2024, Qualcomm Innovation Center, Inc. All rights reserved.
 // SPDX-License-Identifier: BSD-3-Clause
 
-use std::rc::Rc;
+use std::{collections::HashSet, rc::Rc};
 
 use idlc_ast::{
-    ast::Type,
+    ast::{Node, Type},
     visitor::{walk_all, Visitor},
 };
 
 use crate::{graph::Graph, idl_store::IDLStore, CompilerPass};
 
 pub struct Cycles<'ast> {
+    visited: HashSet<String>,
     struct_graph: Graph<String>,
     iface_graph: Graph<String>,
     idl_store: &'ast IDLStore,
@@ -19,12 +20,23 @@ pub struct Cycles<'ast> {
 impl<'ast> Cycles<'ast> {
     pub fn new(idl_store: &'ast IDLStore) -> Self {
         Self {
+            visited: HashSet::new(),
             idl_store,
             struct_graph: Graph::new(),
             iface_graph: Graph::new(),
         }
     }
 
+    fn check_interface(&mut self, iface: &idlc_ast::Interface) {
+        self.visit_iface_recurse(Rc::new(iface.clone()));
+        self.iface_graph.add_node(iface.ident.to_string());
+    }
+
+    fn check_struct(&mut self, r#struct: &idlc_ast::Struct) {
+        self.visit_struct_recurse(Rc::new(r#struct.clone()));
+        self.struct_graph.add_node(r#struct.ident.to_string());
+    }
+
     pub fn visit_iface_recurse(&mut self, iface: Rc<idlc_ast::Interface>) {
         if self.iface_graph.cycle().is_some() {
             return;
@@ -39,7 +51,7 @@ impl<'ast> Cycles<'ast> {
     }
 
     pub fn visit_struct_recurse(&mut self, r#struct: Rc<idlc_ast::Struct>) {
-        if self.struct_graph.cycle().is_some() {
+        if !self.visited.insert(r#struct.ident.to_string()) {
             return;
         }
 
@@ -58,13 +70,11 @@ impl<'ast> Cycles<'ast> {
 
 impl<'ast> Visitor<'ast> for Cycles<'ast> {
     fn visit_interface(&mut self, iface: &'ast idlc_ast::Interface) {
-        self.visit_iface_recurse(Rc::new(iface.clone()));
-        self.iface_graph.add_node(iface.ident.to_string());
+        self.check_interface(iface);
     }
 
     fn visit_struct(&mut self, r#struct: &'ast idlc_ast::Struct) {
-        self.visit_struct_recurse(Rc::new(r#struct.clone()));
-        self.struct_graph.add_node(r#struct.ident.to_string());
+        self.check_struct(r#struct);
     }
 }
 
@@ -76,6 +86,16 @@ impl<'ast> CompilerPass<'ast> for Cycles<'ast> {
     /// This is not needed for interfaces as no AST passes are done for interfaces.
     fn run_pass(&'ast mut self, ast: &'ast idlc_ast::Ast) -> Result<Self::Output, crate::Error> {
         walk_all(self, ast);
+        // Included declarations have to meet the same requirements.
+        for included in self.idl_store.asts() {
+            for node in &included.nodes {
+                match node.as_ref() {
+                    Node::Interface(iface) => self.check_interface(iface),
+                    Node::Struct(r#struct) => self.check_struct(r#struct),
+                    _ => (),
+                }
+            }
+        }
         self.iface_graph
             .toposort()
             .map_err(crate::Error::CyclicalInclude)?;
diff --git a/idlc_ast_passes/src/idl_store.rs b/idlc_ast_passes/src/idl_store.rs
index ee7bb5f..94cd100 100644
--- a/idlc_ast_passes/src/idl_store.rs
+++ b/idlc_ast_passes/src/idl_store.rs
@@ -9,7 +9,7 @@ use crate::CompilerPass;
 
 use std::{
     cell::RefCell,
-    collections::HashMap,
+    collections::{HashMap, HashSet},
     path::{Path, PathBuf},
     rc::Rc,
 };
@@ -30,6 +30,7 @@ pub struct IDLStore {
     graph: Graph<String>,
     include_paths: Vec<PathBuf>,
     allow_undefined_behavior: bool,
+    walked: HashSet<PathBuf>,
 }
 
 #[derive(Debug, Clone, Hash, PartialEq, Eq)]
@@ -56,8 +57,11 @@ impl Visitor<'_> for IDLStore {
             return;
         }
 
-        let inc_ast = self.get_or_insert(&cano_path);
-        walk_all(self, &inc_ast);
+        // A file is walked once however many paths reach it.
+        if self.walked.insert(cano_path.clone()) {
+            let inc_ast = self.get_or_insert(&cano_path);
+            walk_all(self, &inc_ast);
+        }
         self.current = Some(current);
     }
 }
@@ -82,6 +86,7 @@ impl IDLStore {
             graph: Graph::new(),
             include_paths: include_paths.to_vec(),
             allow_undefined_behavior,
+            walked: HashSet::new(),
         }
     }
 
@@ -98,6 +103,14 @@ impl IDLStore {
         ))
     }
 
+    /// returns the ASTs of all the files loaded
+    pub fn asts(&self) -> Vec<Rc<Ast>> {
+        let store = self.ast_store.borrow();
+        let mut asts: Vec<_> = store.iter().collect();
+        asts.sort_by_key(|(path, _)| *path);
+        asts.into_iter().map(|(_, ast)| Rc::clone(ast)).collect()
+    }
+
     fn change_to_canonical<'a>(&mut self, current: &'a Path, path: &'a Path) -> PathBuf {
         if self.ast_store.borrow().contains_key(path) {
             return path.to_path_buf();
@@ -155,6 +168,15 @@ impl IDLStore {
     fn gather_symbols_from_ast(ast: &Ast, map: &mut HashMap<Symbol, (Rc<Node>, PathBuf)>) {
         let tag = &ast.tag;
         for node in &ast.nodes {
+            // Constants share their namespace with structs and interfaces.
+            let clash = match node.as_ref() {
+                Node::Struct(Struct { ident, .. }) | Node::Interface(Interface { ident, .. }) => {
+                    map.contains_key(&Symbol::Const(ident.to_string()))
+                }
+                Node::Const(c) => map.contains_key(&Symbol::Struct(c.ident.to_string())),
+                Node::Include(_) => false,
+            };
+            assert!(!clash, "Duplicate symbol detected!");
             assert_eq!(
                 match node.as_ref() {
                     Node::Struct(s) => map.insert(
diff --git a/idlc_ast_passes/src/struct_verifier.rs b/idlc_ast_passes/src/struct_verifier.rs
index 8e13ec7..13cb919 100644
--- a/idlc_ast_passes/src/struct_verifier.rs
+++ b/idlc_ast_passes/src/struct_verifier.rs
@@ -36,6 +36,8 @@ pub enum Error {
         alignment: usize,
         size: usize,
     },
+    #[error("struct `{parent}` is too large")]
+    StructTooLarge { parent: String },
     #[error("struct `{parent}` contains duplicate field names: `{names:?}`")]
     StructFieldSameName { parent: Ident, names: Vec<Ident> },
 }
@@ -78,7 +80,13 @@ impl StructVerifier {
                     });
                 }
 
-                size += i_size * count;
+                size = i_size
+                    .checked_mul(count)
+                    .and_then(|field_size| field_size.checked_add(size))
+                    .filter(|size| isize::try_from(*size).is_ok())
+                    .ok_or_else(|| Error::StructTooLarge {
+                        parent: r#struct.to_string(),
+                    })?;
                 alignment = alignment.max(i_alignment);
             }
 
-- 
2.43.0


From c4a6b23cbdc34c648408443af9f388337942fa77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:52 +0000
Subject: [PATCH 05/15] fix: refuse every method the wire format cannot express

---
 idlc_codegen/src/counts.rs                |  10 +-
 idlc_mir/src/mir.rs                       |  80 ++++++--
 idlc_mir_passes/src/interface_verifier.rs | 220 +++++++++++-----------
 3 files changed, 185 insertions(+), 125 deletions(-)

diff --git a/idlc_codegen/src/counts.rs b/idlc_codegen/src/counts.rs
index 75a25b4..b1ea9f0 100644
--- a/idlc_codegen/src/counts.rs
+++ b/idlc_codegen/src/counts.rs
@@ -34,7 +34,8 @@ impl super::functions::ParameterVisitor for Counter {
     }
 
     #[inline]
-    fn visit_input_small_struct(&mut self, _: &Ident, _: &StructInner) {
+    fn visit_input_small_struct(&mut self, _: &Ident, s: &StructInner) {
+        self.input_objects += u8::try_from(s.object_count()).unwrap();
         self.has_bundled_input = true;
         self.total_bundled_input += 1;
     }
@@ -42,7 +43,7 @@ impl super::functions::ParameterVisitor for Counter {
     #[inline]
     fn visit_input_big_struct(&mut self, _: &Ident, s: &StructInner) {
         self.input_buffers += 1;
-        self.input_objects += u8::try_from(s.objects().len()).unwrap();
+        self.input_objects += u8::try_from(s.object_count()).unwrap();
     }
 
     #[inline]
@@ -71,7 +72,8 @@ impl super::functions::ParameterVisitor for Counter {
         self.total_bundled_output += 1;
     }
     #[inline]
-    fn visit_output_small_struct(&mut self, _: &Ident, _: &StructInner) {
+    fn visit_output_small_struct(&mut self, _: &Ident, s: &StructInner) {
+        self.output_objects += u8::try_from(s.object_count()).unwrap();
         self.has_bundled_output = true;
         self.total_bundled_output += 1;
     }
@@ -79,7 +81,7 @@ impl super::functions::ParameterVisitor for Counter {
     #[inline]
     fn visit_output_big_struct(&mut self, _: &Ident, s: &StructInner) {
         self.output_buffers += 1;
-        self.output_objects += u8::try_from(s.objects().len()).unwrap();
+        self.output_objects += u8::try_from(s.object_count()).unwrap();
     }
 
     #[inline]
diff --git a/idlc_mir/src/mir.rs b/idlc_mir/src/mir.rs
index dcee3cf..af3368a 100644
--- a/idlc_mir/src/mir.rs
+++ b/idlc_mir/src/mir.rs
@@ -28,7 +28,7 @@ use idlc_ast::Ast;
 pub use idlc_ast::Ident;
 use idlc_ast_passes::idl_store::IDLStore;
 
-use std::collections::{HashMap, VecDeque};
+use std::collections::VecDeque;
 use std::path::{Path, PathBuf};
 use std::rc::Rc;
 
@@ -205,27 +205,22 @@ impl StructInner {
         self.fields.iter().fold(0, |acc, e| acc + e.size())
     }
 
+    /// Paths of the fields which are objects, breadth first.
+    ///
+    /// Elements of arrays aren't told apart, see [`Self::object_slots`].
     pub fn objects(&self) -> Vec<(Vec<&Ident>, Option<&str>)> {
         let mut queue = VecDeque::new();
-        let mut parents = HashMap::new();
         let mut objects = Vec::new();
-        queue.push_back(self);
+        queue.push_back((self, Vec::new()));
 
-        while let Some(node) = queue.pop_front() {
+        while let Some((node, parents)) = queue.pop_front() {
             for field in &node.fields {
                 let (ty, _) = &field.val;
+                let mut path = parents.clone();
+                path.push(&field.ident);
                 if let Type::Struct(s) = ty {
-                    parents.insert(s.as_ref(), (node, Some(&field.ident)));
-                    queue.push_back(s.as_ref());
+                    queue.push_back((s.as_ref(), path));
                 } else if let Type::Interface(interface) = ty {
-                    // Reconstruct path information.
-                    let mut path = vec![&field.ident];
-                    let mut current = node;
-                    while let Some((parent, Some(parent_ident))) = parents.get(current) {
-                        path.push(*parent_ident);
-                        current = parent;
-                    }
-                    path.reverse();
                     objects.push((path, interface.as_deref()));
                 }
             }
@@ -234,12 +229,65 @@ impl StructInner {
         objects
     }
 
+    /// Place expressions relative to the struct, like `field.array[1].object`,
+    /// and types of each object a value of this struct holds.
+    pub fn object_slots(&self) -> Vec<(String, Option<&str>)> {
+        let mut slots = Vec::new();
+        for field in &self.fields {
+            let (ty, count) = &field.val;
+            let places: Vec<String> = if count.get() == 1 {
+                vec![field.ident.to_string()]
+            } else {
+                (0..count.get())
+                    .map(|i| format!("{}[{i}]", field.ident))
+                    .collect()
+            };
+            match ty {
+                Type::Interface(interface) => slots.extend(
+                    places
+                        .into_iter()
+                        .map(|place| (place, interface.as_deref())),
+                ),
+                Type::Struct(s) if s.as_ref().contains_interfaces() => {
+                    let inner = s.as_ref().object_slots();
+                    for place in places {
+                        slots.extend(
+                            inner
+                                .iter()
+                                .map(|(path, interface)| (format!("{place}.{path}"), *interface)),
+                        );
+                    }
+                }
+                _ => (),
+            }
+        }
+
+        slots
+    }
+
+    /// Number of objects a value of this struct holds.
+    pub fn object_count(&self) -> usize {
+        self.fields.iter().fold(0usize, |acc, field| {
+            let (ty, count) = &field.val;
+            let objects = match ty {
+                Type::Interface(_) => 1,
+                Type::Struct(s) => s.as_ref().object_count(),
+                _ => 0,
+            };
+            acc.saturating_add(objects.saturating_mul(usize::from(count.get())))
+        })
+    }
+
     pub fn is_primitive_struct(&self) -> bool {
-        self.objects().is_empty()
+        !self.contains_interfaces()
     }
 
     pub fn contains_interfaces(&self) -> bool {
-        !self.is_primitive_struct()
+        self.fields.iter().any(|field| match &field.val.0 {
+            Type::Interface(_) => true,
+            Type::Struct(s) => s.as_ref().contains_interfaces(),
+            _ => false,
+        })
     }
 }
 
diff --git a/idlc_mir_passes/src/interface_verifier.rs b/idlc_mir_passes/src/interface_verifier.rs
index 5f44669..ea969d3 100644
--- a/idlc_mir_passes/src/interface_verifier.rs
+++ b/idlc_mir_passes/src/interface_verifier.rs
@@ -5,7 +5,9 @@ use std::collections::HashSet;
 
 use crate::MirCompilerPass;
 
-use idlc_mir::{InterfaceNode, Node, ParamTypeIn, ParamTypeOut, Struct, Type};
+use idlc_mir::{
+    Function, Interface, InterfaceNode, Node, Param, ParamTypeIn, ParamTypeOut, Struct, Type,
+};
 
 pub struct InterfaceVerifier<'mir> {
     mir: &'mir idlc_mir::Mir,
@@ -40,110 +42,7 @@ impl<'mir> MirCompilerPass<'_> for InterfaceVerifier<'mir> {
                         InterfaceNode::Function(f) => {
                             functions.add_ident(&f.ident, from);
 
-                            let mut args_array_in = false;
-                            let mut args_value_in = false;
-                            let mut args_array_out = false;
-                            let mut args_value_out = false;
-                            for param in &f.params {
-                                match param {
-                                    idlc_mir::Param::In { r#type, ident: _ } => match r#type {
-                                        ParamTypeIn::Array(t, cnt) => {
-                                            if let idlc_mir::Type::Interface(i) = t {
-                                                let iface_name =
-                                                    i.as_deref().unwrap_or("interface").to_string();
-                                                if !cnt.is_some() {
-                                                    idlc_errors::unrecoverable!(
-                                                        "Interface `{}`, method `{}` should not have unbounded array of interface",
-                                                        iface_name, f.ident
-                                                    );
-                                                } else if cnt.unwrap()
-                                                    == std::num::NonZeroU16::new(1).unwrap()
-                                                {
-                                                    idlc_errors::warn!(
-                                                        "Interface `{}`, method `{}` has the array size of 1. It is better to use non-array interface instead222",
-                                                        iface_name, f.ident
-                                                    );
-                                                }
-
-                                                args_array_in = true;
-                                            };
-                                            if let Type::Struct(_) | Type::Primitive(_) = t {
-                                                if let Type::Struct(Struct::Big(s)) = t {
-                                                    if s.contains_interfaces() {
-                                                        idlc_errors::unrecoverable!(
-                                                            "Struct with Object inside cannot be used as an array",
-                                                        );
-                                                    }
-                                                }
-                                                if cnt.is_some() {
-                                                    idlc_errors::unrecoverable!(
-                                                        "Interface `{}`, method `{}` should not have bounded array of primitive/struct",
-                                                        src.ident, f.ident
-                                                    );
-                                                }
-                                            }
-                                        }
-                                        ParamTypeIn::Value(t) => {
-                                            if let Type::Interface(_) = t {
-                                                args_value_in = true;
-                                            };
-                                        }
-                                    },
-                                    idlc_mir::Param::Out { r#type, ident: _ } => match r#type {
-                                        ParamTypeOut::Array(t, cnt) => {
-                                            if let Type::Interface(i) = t {
-                                                let iface_name =
-                                                    i.as_deref().unwrap_or("interface").to_string();
-                                                if !cnt.is_some() {
-                                                    idlc_errors::unrecoverable!(
-                                                        "Interface `{}`, method `{}` should not have unbounded array of interface",
-                                                        iface_name, f.ident
-                                                    );
-                                                } else if cnt.unwrap()
-                                                    == std::num::NonZeroU16::new(1).unwrap()
-                                                {
-                                                    idlc_errors::warn!(
-                                                        "Interface `{}`, method `{}` has the array size of 1. It is better to use non-array interface instead111",
-                                                        iface_name, f.ident
-                                                    );
-                                                }
-                                                args_array_out = true;
-                                            };
-                                            if let Type::Struct(_) | Type::Primitive(_) = t {
-                                                if let Type::Struct(
-                                                    Struct::Big(s) | Struct::Small(s),
-                                                ) = t
-                                                {
-                                                    if s.contains_interfaces() {
-                                                        idlc_errors::unrecoverable!(
-                                                            "Struct with Object inside cannot be used as an array",
-                                                        );
-                                                    }
-                                                }
-                                                if cnt.is_some() {
-                                                    idlc_errors::unrecoverable!(
-                                                        "Interface `{}`, method `{}` should not have bounded array of primitive/struct",
-                                                        src.ident, f.ident
-                                                    );
-                                                }
-                                            }
-                                        }
-                                        ParamTypeOut::Reference(t) => {
-                                            if let Type::Interface(_) = t {
-                                                args_value_out = true;
-                                            };
-                                        }
-                                    },
-                                }
-                            }
-                            if (args_array_in && args_value_in)
-                                || (args_array_out && args_value_out)
-                            {
-                                idlc_errors::unrecoverable!(
-                                    "Interface `{}`, method `{}` has both object array and non-array object arguments",
-                                    src.ident, f.ident,
-                                );
-                            }
+                            verify_function(src, f);
                         }
                     }
                 }
@@ -152,6 +51,117 @@ impl<'mir> MirCompilerPass<'_> for InterfaceVerifier<'mir> {
     }
 }
 
+/// Largest number of arguments of a class the counts of an invocation can hold.
+const MAX_ARGS: usize = 15;
+
+/// Arguments in one direction.
+#[derive(Default)]
+struct Arguments {
+    bundleable: usize,
+    buffers: usize,
+    objects: usize,
+    object_values: usize,
+    object_arrays: usize,
+}
+
+fn verify_function(src: &Interface, f: &Function) {
+    let mut inputs = Arguments::default();
+    let mut outputs = Arguments::default();
+    for param in &f.params {
+        let (args, bound) = match param {
+            Param::In { r#type, .. } => (
+                &mut inputs,
+                match r#type {
+                    ParamTypeIn::Array(_, cnt) => Some(cnt),
+                    ParamTypeIn::Value(_) => None,
+                },
+            ),
+            Param::Out { r#type, .. } => (
+                &mut outputs,
+                match r#type {
+                    ParamTypeOut::Array(_, cnt) => Some(cnt),
+                    ParamTypeOut::Reference(_) => None,
+                },
+            ),
+        };
+        match (param.r#type(), bound) {
+            (Type::Interface(i), Some(cnt)) => {
+                let iface_name = i.as_deref().unwrap_or("interface");
+                let Some(cnt) = cnt else {
+                    idlc_errors::unrecoverable!(
+                        "Interface `{}`, method `{}` should not have unbounded array of interface",
+                        iface_name,
+                        f.ident
+                    );
+                };
+                if cnt.get() == 1 {
+                    idlc_errors::warn!(
+                        "Interface `{}`, method `{}` has the array size of 1. It is better to use non-array interface instead",
+                        iface_name, f.ident
+                    );
+                }
+                args.object_arrays += 1;
+                args.objects += usize::from(cnt.get());
+            }
+            (Type::Interface(_), None) => {
+                args.object_values += 1;
+                args.objects += 1;
+            }
+            (ty @ (Type::Struct(_) | Type::Primitive(_)), Some(cnt)) => {
+                if matches!(ty, Type::Struct(s) if s.as_ref().contains_interfaces()) {
+                    idlc_errors::unrecoverable!(
+                        "Struct with Object inside cannot be used as an array",
+                    );
+                }
+                if cnt.is_some() {
+                    idlc_errors::unrecoverable!(
+                        "Interface `{}`, method `{}` should not have bounded array of primitive/struct",
+                        src.ident, f.ident
+                    );
+                }
+                args.buffers += 1;
+            }
+            (Type::Struct(s), None) => {
+                match s {
+                    Struct::Small(_) => args.bundleable += 1,
+                    Struct::Big(_) => args.buffers += 1,
+                }
+                let objects = s.as_ref().object_count();
+                if objects > 0 {
+                    args.object_values += 1;
+                    args.objects = args.objects.saturating_add(objects);
+                }
+            }
+            (Type::Primitive(_), None) => args.bundleable += 1,
+            (Type::UntypedBuffer, _) => args.buffers += 1,
+        }
+    }
+
+    for args in [inputs, outputs] {
+        if args.object_arrays > 0 && args.object_values > 0 {
+            idlc_errors::unrecoverable!(
+                "Interface `{}`, method `{}` has both object array and non-array object arguments",
+                src.ident,
+                f.ident,
+            );
+        }
+        if args.object_arrays > 1 {
+            idlc_errors::unrecoverable!(
+                "Interface `{}`, method `{}` has more than one object array in the same direction",
+                src.ident,
+                f.ident,
+            );
+        }
+        let buffers = args.buffers + usize::from(args.bundleable > 0);
+        if buffers > MAX_ARGS || args.objects > MAX_ARGS {
+            idlc_errors::unrecoverable!(
+                "Interface `{}`, method `{}` has more than {MAX_ARGS} buffers or objects in the same direction",
+                src.ident, f.ident,
+            );
+        }
+    }
+}
+
 struct CollisionDetector<'a> {
     src: &'a idlc_mir::Interface,
     inner: HashSet<&'a idlc_ast::Ident>,
-- 
2.43.0


From 5c83d0a26f1b325c541489708ee90a60d7ad22c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:21 +0000
Subject: [PATCH 06/15] fix: deep nesting neither exhausts the stack nor takes
 cubic time

---
 idlc/src/main.rs                 | 15 +++++++++++++++
 idlc_ast_passes/src/cycles.rs    | 10 ++++++----
 idlc_ast_passes/src/idl_store.rs | 19 ++++++-------------
 3 files changed, 27 insertions(+), 17 deletions(-)

diff --git a/idlc/src/main.rs b/idlc/src/main.rs
index 69ca237..b491de3 100644
--- a/idlc/src/main.rs
+++ b/idlc/src/main.rs
@@ -103,7 +103,22 @@ enum Dumpable {
     Mir,
 }
 
+/// Stack of the thread the compiler runs in: includes, inheritance and struct
+/// containment are walked recursively, and nothing bounds how deep they nest.
+const STACK_SIZE: usize = 1 << 30;
+
 fn main() {
+    let compiler = std::thread::Builder::new()
+        .name("main".to_string())
+        .stack_size(STACK_SIZE)
+        .spawn(compile)
+        .expect("Failed to start the compiler");
+    if compiler.join().is_err() {
+        std::process::exit(101);
+    }
+}
+
+fn compile() {
     use clap::Parser as ClapParser;
     idlc_errors::init();
     let args = Cli::parse();
diff --git a/idlc_ast_passes/src/cycles.rs b/idlc_ast_passes/src/cycles.rs
index 4c9fd71..33147c4 100644
--- a/idlc_ast_passes/src/cycles.rs
+++ b/idlc_ast_passes/src/cycles.rs
@@ -11,7 +11,8 @@ use idlc_ast::{
 use crate::{graph::Graph, idl_store::IDLStore, CompilerPass};
 
 pub struct Cycles<'ast> {
-    visited: HashSet<String>,
+    visited_structs: HashSet<String>,
+    visited_ifaces: HashSet<String>,
     struct_graph: Graph<String>,
     iface_graph: Graph<String>,
     idl_store: &'ast IDLStore,
@@ -20,7 +21,8 @@ pub struct Cycles<'ast> {
 impl<'ast> Cycles<'ast> {
     pub fn new(idl_store: &'ast IDLStore) -> Self {
         Self {
-            visited: HashSet::new(),
+            visited_structs: HashSet::new(),
+            visited_ifaces: HashSet::new(),
             idl_store,
             struct_graph: Graph::new(),
             iface_graph: Graph::new(),
@@ -38,7 +40,7 @@ impl<'ast> Cycles<'ast> {
     }
 
     pub fn visit_iface_recurse(&mut self, iface: Rc<idlc_ast::Interface>) {
-        if self.iface_graph.cycle().is_some() {
+        if !self.visited_ifaces.insert(iface.ident.to_string()) {
             return;
         }
 
@@ -51,7 +53,7 @@ impl<'ast> Cycles<'ast> {
     }
 
     pub fn visit_struct_recurse(&mut self, r#struct: Rc<idlc_ast::Struct>) {
-        if !self.visited.insert(r#struct.ident.to_string()) {
+        if !self.visited_structs.insert(r#struct.ident.to_string()) {
             return;
         }
 
diff --git a/idlc_ast_passes/src/idl_store.rs b/idlc_ast_passes/src/idl_store.rs
index 94cd100..2d5d6d1 100644
--- a/idlc_ast_passes/src/idl_store.rs
+++ b/idlc_ast_passes/src/idl_store.rs
@@ -3,7 +3,7 @@
 
 //! Implementation of include cycle detection and symbol lookup
 //!
-use crate::graph::{Cycle, Graph};
+use crate::graph::Graph;
 
 use crate::CompilerPass;
 
@@ -26,7 +26,6 @@ pub struct IDLStore {
     ast_store: RefCell<HashMap<PathBuf, Rc<Ast>>>,
     symbols: RefCell<HashMap<Symbol, (Rc<Node>, PathBuf)>>,
     current: Option<PathBuf>,
-    cycle: Option<Cycle<String>>,
     graph: Graph<String>,
     include_paths: Vec<PathBuf>,
     allow_undefined_behavior: bool,
@@ -52,12 +51,9 @@ impl Visitor<'_> for IDLStore {
             current.clone().display().to_string(),
             cano_path.display().to_string(),
         );
-        self.cycle = self.graph.cycle();
-        if self.cycle.is_some() {
-            return;
-        }
 
-        // A file is walked once however many paths reach it.
+        // A file is walked once however many paths reach it, so this ends even
+        // if there is a cycle, which is found when all edges are known.
         if self.walked.insert(cano_path.clone()) {
             let inc_ast = self.get_or_insert(&cano_path);
             walk_all(self, &inc_ast);
@@ -82,7 +78,6 @@ impl IDLStore {
             ast_store: RefCell::new(HashMap::new()),
             symbols: RefCell::new(HashMap::new()),
             current: None,
-            cycle: None,
             graph: Graph::new(),
             include_paths: include_paths.to_vec(),
             allow_undefined_behavior,
@@ -157,11 +152,9 @@ impl IDLStore {
 
     fn check_includes(&mut self, ast: &'_ idlc_ast::Ast) -> Result<Vec<String>, crate::Error> {
         walk_all(self, ast);
-        if let Some(cycle) = self.cycle.take() {
-            return Err(crate::Error::CyclicalInclude(cycle));
-        }
-
-        Ok(self.graph.toposort().unwrap())
+        self.graph
+            .toposort()
+            .map_err(crate::Error::CyclicalInclude)
     }
 
     #[inline]
-- 
2.43.0


From 4906e27bea9775e3132c14c19f4f78bd0f3861fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:35 +0000
Subject: [PATCH 07/15] fix: only a file satisfies an include

---
 idlc_ast_passes/src/idl_store.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/idlc_ast_passes/src/idl_store.rs b/idlc_ast_passes/src/idl_store.rs
index 2d5d6d1..2fbf884 100644
--- a/idlc_ast_passes/src/idl_store.rs
+++ b/idlc_ast_passes/src/idl_store.rs
@@ -125,7 +125,7 @@ impl IDLStore {
 
         for include_path in &self.include_paths {
             let possibility = include_path.join(path);
-            if possibility.exists() {
+            if possibility.is_file() {
                 let canonical = possibility.canonicalize().unwrap();
                 if first.is_none() {
                     first = Some(canonical.clone());
-- 
2.43.0


From 1ff202fd7c32b5c8d3885e47465821325a0f9bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:35 +0000
Subject: [PATCH 08/15] fix: Rust interfaces whose names differ in case only do
 not overwrite each other

---
 idlc_codegen_rust/src/generator.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/idlc_codegen_rust/src/generator.rs b/idlc_codegen_rust/src/generator.rs
index b65a0f7..1d6bd54 100644
--- a/idlc_codegen_rust/src/generator.rs
+++ b/idlc_codegen_rust/src/generator.rs
@@ -52,14 +52,10 @@ impl idlc_codegen::Generator for Generator {
                     interface_content.push('\n');
                     interface_content.push_str(&emit(i));
                     let name = format!("{}.rs", i.ident.to_lowercase());
-                    if name == base.to_str().unwrap() {
-                        interfaces
-                            .get_mut(&base)
-                            .unwrap()
-                            .push_str(&interface_content);
-                    } else {
-                        interfaces.insert(name.into(), format!("{prologue}{interface_content}"));
-                    }
+                    interfaces
+                        .entry(name.into())
+                        .or_insert_with(|| prologue.to_owned())
+                        .push_str(&interface_content);
                 }
                 _ => (),
             }
-- 
2.43.0


From a2e8f83eee7e674e5b84cf892edbbcfe6845696e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:35 +0000
Subject: [PATCH 09/15] fix: comment text cannot end or extend the generated
 comment

---
 idlc_codegen/src/documentation.rs |  13 ++
 idlc_codegen/src/marking.rs       | 254 ++++++++++++++++--------------
 2 files changed, 146 insertions(+), 121 deletions(-)

diff --git a/idlc_codegen/src/documentation.rs b/idlc_codegen/src/documentation.rs
index f0c6349..5dd9fc8 100644
--- a/idlc_codegen/src/documentation.rs
+++ b/idlc_codegen/src/documentation.rs
@@ -32,6 +32,18 @@ impl DocumentationStyle {
     }
 }
 
+impl DocumentationStyle {
+    /// Text that has a meaning inside of a comment of the target language.
+    fn sanitize(self, doc: &str) -> String {
+        let doc = doc.replace("\r\n", "\n").replace('\r', "\n");
+        match self {
+            Self::Rust => doc,
+            Self::C => doc.replace("/*", "/ *"),
+            Self::Java => doc.replace("/*", "/ *").replace("\\u", "\\ u"),
+        }
+    }
+}
+
 #[derive(Debug, Clone, PartialEq, Eq)]
 pub struct Documentation(String);
 impl std::fmt::Display for Documentation {
@@ -65,6 +77,7 @@ impl Documentation {
     fn new_with_idlc_doc(doc: &str, style: DocumentationStyle) -> Self {
         let mut documentation = style.start().to_string();
         documentation.push('\n');
+        let doc = &style.sanitize(doc);
         let last_line = doc.lines().last().unwrap();
         let indent = last_line.find('*').unwrap();
 
diff --git a/idlc_codegen/src/marking.rs b/idlc_codegen/src/marking.rs
index 5a0a5ee..e515034 100644
--- a/idlc_codegen/src/marking.rs
+++ b/idlc_codegen/src/marking.rs
@@ -1,121 +1,133 @@
-// Copyright (c) 2024, Qualcomm Innovation Center, Inc. All rights reserved.
-// SPDX-License-Identifier: BSD-3-Clause
-
-#[derive(Debug, Clone, Copy, PartialEq, Eq)]
-pub enum MarkingStyle {
-    Rust,
-    C,
-    Java,
-}
-
-impl MarkingStyle {
-    const fn start(self) -> &'static str {
-        match self {
-            Self::Rust | Self::C => "",
-            Self::Java => "/*\n",
-        }
-    }
-
-    const fn end(self) -> &'static str {
-        match self {
-            Self::Rust | Self::C => "",
-            Self::Java => "*/\n",
-        }
-    }
-
-    const fn prefix(self) -> &'static str {
-        match self {
-            Self::Rust | Self::C => "//",
-            Self::Java => "*",
-        }
-    }
-}
-
-#[derive(Debug, Clone, PartialEq, Eq)]
-pub struct Marking(String);
-impl std::fmt::Display for Marking {
-    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
-        std::fmt::Display::fmt(&self.0, f)
-    }
-}
-
-impl std::ops::Deref for Marking {
-    type Target = str;
-
-    fn deref(&self) -> &Self::Target {
-        self.0.as_str()
-    }
-}
-impl AsRef<str> for Marking {
-    fn as_ref(&self) -> &str {
-        self.0.as_str()
-    }
-}
-
-impl Marking {
-    pub fn new(marking: &str, style: MarkingStyle) -> Self {
-        if marking.is_empty() {
-            return Self(String::new());
-        }
-        let mut documentation = style.start().to_string();
-        for line in marking.lines() {
-            documentation += style.prefix();
-            documentation.push(' ');
-            documentation.push_str(line);
-            documentation.push('\n');
-        }
-        documentation.push_str(style.end());
-        documentation.push('\n');
-        Self(documentation)
-    }
-}
-
-#[cfg(test)]
-mod tests {
-    use super::*;
-    const MARKING: &str = "Copyright (c) Qualcomm Technologies, Inc. and/or its subsidiaries.
-All rights reserved.
-Confidential and Proprietary - Qualcomm Technologies, Inc.
-";
-
-    #[test]
-    fn rust() {
-        let marking = Marking::new(MARKING, MarkingStyle::Rust);
-        assert_eq!(
-            marking.as_ref(),
-            r"// Copyright (c) Qualcomm Technologies, Inc. and/or its subsidiaries.
-// All rights reserved.
-// Confidential and Proprietary - Qualcomm Technologies, Inc.
-
-"
-        );
-    }
-
-    #[test]
-    fn c() {
-        let marking = Marking::new(MARKING, MarkingStyle::C);
-        assert_eq!(
-            marking.as_ref(),
-            r"// Copyright (c) Qualcomm Technologies, Inc. and/or its subsidiaries.
-// All rights reserved.
-// Confidential and Proprietary - Qualcomm Technologies, Inc.
-
-"
-        );
-    }
-
-    #[test]
-    fn java() {
-        let marking = Marking::new(MARKING, MarkingStyle::Java);
-        assert_eq!(
-            marking.as_ref(),
-            r"/*
-* Copyright (c) Qualcomm Technologies, Inc. and/or its subsidiaries.
-* All rights reserved.
-* Confidential and Proprietary - Qualcomm Technologies, Inc.
-*/
-
-"
-        );
-    }
-}
+// Copyright (c) 2024, Qualcomm Innovation Center, Inc. All rights reserved.
+// SPDX-License-Identifier: BSD-3-Clause
+
+#[derive(Debug, Clone, Copy, PartialEq, Eq)]
+pub enum MarkingStyle {
+    Rust,
+    C,
+    Java,
+}
+
+impl MarkingStyle {
+    const fn start(self) -> &'static str {
+        match self {
+            Self::Rust | Self::C => "",
+            Self::Java => "/*\n",
+        }
+    }
+
+    const fn end(self) -> &'static str {
+        match self {
+            Self::Rust | Self::C => "",
+            Self::Java => "*/\n",
+        }
+    }
+
+    const fn prefix(self) -> &'static str {
+        match self {
+            Self::Rust | Self::C => "//",
+            Self::Java => "*",
+        }
+    }
+}
+
+impl MarkingStyle {
+    /// The line without anything that ends or extends a comment of the target language.
+    fn sanitize(self, line: &str) -> String {
+        match self {
+            Self::Rust => line.to_string(),
+            Self::C if line.trim_end().ends_with('\\') => format!("{line}."),
+            Self::C => line.to_string(),
+            Self::Java => line.replace("*/", "* /").replace("\\u", "\\ u"),
+        }
+    }
+}
+
+#[derive(Debug, Clone, PartialEq, Eq)]
+pub struct Marking(String);
+impl std::fmt::Display for Marking {
+    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
+        std::fmt::Display::fmt(&self.0, f)
+    }
+}
+
+impl std::ops::Deref for Marking {
+    type Target = str;
+
+    fn deref(&self) -> &Self::Target {
+        self.0.as_str()
+    }
+}
+impl AsRef<str> for Marking {
+    fn as_ref(&self) -> &str {
+        self.0.as_str()
+    }
+}
+
+impl Marking {
+    pub fn new(marking: &str, style: MarkingStyle) -> Self {
+        if marking.is_empty() {
+            return Self(String::new());
+        }
+        let mut documentation = style.start().to_string();
+        for line in marking.lines() {
+            documentation += style.prefix();
+            documentation.push(' ');
+            documentation.push_str(&style.sanitize(line));
+            documentation.push('\n');
+        }
+        documentation.push_str(style.end());
+        documentation.push('\n');
+        Self(documentation)
+    }
+}
+
+#[cfg(test)]
+mod tests {
+    use super::*;
+    const MARKING: &str = "Copyright (c) Qualcomm Technologies, Inc. and/or its subsidiaries.
+All rights reserved.
+Confidential and Proprietary - Qualcomm Technologies, Inc.
+";
+
+    #[test]
+    fn rust() {
+        let marking = Marking::new(MARKING, MarkingStyle::Rust);
+        assert_eq!(
+            marking.as_ref(),
+            r"// Copyright (c) Qualcomm Technologies, Inc. and/or its subsidiaries.
+// All rights reserved.
+// Confidential and Proprietary - Qualcomm Technologies, Inc.
+
+"
+        );
+    }
+
+    #[test]
+    fn c() {
+        let marking = Marking::new(MARKING, MarkingStyle::C);
+        assert_eq!(
+            marking.as_ref(),
+            r"// Copyright (c) Qualcomm Technologies, Inc. and/or its subsidiaries.
+// All rights reserved.
+// Confidential and Proprietary - Qualcomm Technologies, Inc.
+
+"
+        );
+    }
+
+    #[test]
+    fn java() {
+        let marking = Marking::new(MARKING, MarkingStyle::Java);
+        assert_eq!(
+            marking.as_ref(),
+            r"/*
+* Copyright (c) Qualcomm Technologies, Inc. and/or its subsidiaries.
+* All rights reserved.
+* Confidential and Proprietary - Qualcomm Technologies, Inc.
+*/
+
+"
+        );
+    }
+}
-- 
2.43.0


From cdfa79947de1aa513a75b848848da41a5fa00db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:03 +0000
Subject: [PATCH 10/15] fix: a method may bundle any number of parameters

---
 idlc_codegen/src/counts.rs                            | 4 ++--
 idlc_codegen_c/src/interface/functions/signature.rs   | 4 ++--
 idlc_codegen_cpp/src/interface/functions/signature.rs | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/idlc_codegen/src/counts.rs b/idlc_codegen/src/counts.rs
index b1ea9f0..b78b009 100644
--- a/idlc_codegen/src/counts.rs
+++ b/idlc_codegen/src/counts.rs
@@ -9,8 +9,8 @@ pub struct Counter {
     pub input_objects: u8,
     pub output_objects: u8,
     pub output_buffers: u8,
-    pub total_bundled_input: u8,
-    pub total_bundled_output: u8,
+    pub total_bundled_input: usize,
+    pub total_bundled_output: usize,
 
     has_bundled_input: bool,
     has_bundled_output: bool,
diff --git a/idlc_codegen_c/src/interface/functions/signature.rs b/idlc_codegen_c/src/interface/functions/signature.rs
index 5247ad5..9ff3415 100644
--- a/idlc_codegen_c/src/interface/functions/signature.rs
+++ b/idlc_codegen_c/src/interface/functions/signature.rs
@@ -14,8 +14,8 @@ pub struct Signature {
     bundled_outputs: Vec<String>,
     input_obj_arg: Vec<String>,
 
-    total_bundled_input: u8,
-    total_bundled_output: u8,
+    total_bundled_input: usize,
+    total_bundled_output: usize,
     is_no_typed_objects: bool,
 }
 
diff --git a/idlc_codegen_cpp/src/interface/functions/signature.rs b/idlc_codegen_cpp/src/interface/functions/signature.rs
index 6d83820..a21e694 100644
--- a/idlc_codegen_cpp/src/interface/functions/signature.rs
+++ b/idlc_codegen_cpp/src/interface/functions/signature.rs
@@ -15,8 +15,8 @@ pub struct Signature {
     input_obj_arg: Vec<String>,
     output_obj_arg: Vec<String>,
 
-    total_bundled_input: u8,
-    total_bundled_output: u8,
+    total_bundled_input: usize,
+    total_bundled_output: usize,
 }
 
 impl Signature {
-- 
2.43.0


From b2ceb00d2746b75bab324c524ebe00eb7f93b8c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:13 +0000
Subject: [PATCH 11/15] fix: dumping a file that does not parse fails

---
 idlc_ast/src/pst.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/idlc_ast/src/pst.rs b/idlc_ast/src/pst.rs
index b1c7f6e..e434148 100644
--- a/idlc_ast/src/pst.rs
+++ b/idlc_ast/src/pst.rs
@@ -389,7 +389,7 @@ pub fn dump<P: AsRef<std::path::Path>>(path: P) {
     let duration = now.elapsed();
     match pst {
         Ok(pst) => println!("{pst:#?}"),
-        Err(e) => eprintln!("Parsing failed:\n{e}\n"),
+        Err(e) => idlc_errors::unrecoverable!("Parsing failed:\n{e}\n"),
     }
     eprintln!("'dump_pst' completed in {duration:?}");
 }
-- 
2.43.0


From 439b74e74d96752804c06060737a1f4bff70fc1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:10 +0000
Subject: [PATCH 12/15] fix: the C, C++ and Rust code marshals every method the
 compiler accepts

Structs with objects conveyed a blanked handle in place of the object,
bundled structs with objects did not compile, arrays of objects in
structs were one object, bundles with gaps did not have the size of
their members, outputs were stored when the call failed, output
references were leaked when the proxy held the object already, local
variables collided with parameters, the declarations of interfaces and
structs had to precede their use, more than one level of inheritance
gave invalid C++, calls without arguments formed a slice from a null
pointer, and an output length left alone aborted.
---
 idlc_ast/src/pst.rs                           |  13 +-
 idlc_ast_passes/src/idl_store.rs              |   4 +-
 idlc_codegen/src/functions.rs                 |  80 ++++---
 idlc_codegen/src/lib.rs                       |  74 ++++++
 idlc_codegen/src/serialization.rs             |  35 +++
 idlc_codegen_c/src/generator.rs               |  19 +-
 .../src/interface/functions/implementation.rs | 173 ++++++--------
 .../src/interface/functions/invoke.rs         | 190 ++++++++--------
 .../src/interface/functions/serialization.rs  |  97 ++++----
 .../src/interface/functions/signature.rs      | 139 +++++-------
 idlc_codegen_c/src/interface/mod.rs           |  30 +--
 .../src/interface/variable_names.rs           |  15 +-
 idlc_codegen_cpp/src/generator.rs             |  30 ++-
 .../src/interface/functions/implementation.rs | 213 +++++++-----------
 .../src/interface/functions/invoke.rs         | 116 ++++------
 .../src/interface/functions/serialization.rs  | 120 ++--------
 .../src/interface/functions/signature.rs      | 102 +++++----
 idlc_codegen_cpp/src/interface/mod.rs         |  86 ++++---
 .../src/interface/functions/implementation.rs | 110 +++++----
 .../src/interface/functions/invoke.rs         | 112 +++++----
 .../src/interface/functions/serialization.rs  |  45 +++-
 .../src/interface/functions/signature.rs      |  17 +-
 idlc_codegen_rust/src/interface/mod.rs        |   6 +-
 .../src/interface/variable_names.rs           |  19 +-
 idlc_mir/src/mir.rs                           |  13 ++
 25 files changed, 949 insertions(+), 909 deletions(-)

diff --git a/idlc_ast/src/pst.rs b/idlc_ast/src/pst.rs
index e434148..e4c0fd6 100644
--- a/idlc_ast/src/pst.rs
+++ b/idlc_ast/src/pst.rs
@@ -64,9 +64,8 @@ fn tokens(pair: Pair<'_, Rule>) -> impl Iterator<Item = Pair<'_, Rule>> {
 fn parse_array_size(pair: Pair<'_, Rule>) -> Count {
     debug_assert_eq!(pair.as_rule(), Rule::bounded_array);
     let size = ast_unwrap!(tokens(pair).next()).as_str();
-    size.parse().unwrap_or_else(|e| {
-        idlc_errors::unrecoverable!("'{size}' isn't a valid array size [{e}]")
-    })
+    size.parse()
+        .unwrap_or_else(|e| idlc_errors::unrecoverable!("'{size}' isn't a valid array size [{e}]"))
 }
 
 impl From<pest::Span<'_>> for Span {
@@ -204,9 +203,7 @@ impl From<Pair<'_, Rule>> for ParamTypeIn {
         if let Some(pair) = inner.next() {
             match pair.as_rule() {
                 Rule::unbounded_array => Self::Array(r#type, None),
-                Rule::bounded_array => {
-                    Self::Array(r#type, Some(parse_array_size(pair)))
-                }
+                Rule::bounded_array => Self::Array(r#type, Some(parse_array_size(pair))),
                 _ => unreachable!(),
             }
         } else {
@@ -228,9 +225,7 @@ impl From<Pair<'_, Rule>> for ParamTypeOut {
         if let Some(pair) = inner.next() {
             match pair.as_rule() {
                 Rule::unbounded_array => Self::Array(r#type, None),
-                Rule::bounded_array => {
-                    Self::Array(r#type, Some(parse_array_size(pair)))
-                }
+                Rule::bounded_array => Self::Array(r#type, Some(parse_array_size(pair))),
                 _ => unreachable!(),
             }
         } else {
diff --git a/idlc_ast_passes/src/idl_store.rs b/idlc_ast_passes/src/idl_store.rs
index 2fbf884..50bd50e 100644
--- a/idlc_ast_passes/src/idl_store.rs
+++ b/idlc_ast_passes/src/idl_store.rs
@@ -152,9 +152,7 @@ impl IDLStore {
 
     fn check_includes(&mut self, ast: &'_ idlc_ast::Ast) -> Result<Vec<String>, crate::Error> {
         walk_all(self, ast);
-        self.graph
-            .toposort()
-            .map_err(crate::Error::CyclicalInclude)
+        self.graph.toposort().map_err(crate::Error::CyclicalInclude)
     }
 
     #[inline]
diff --git a/idlc_codegen/src/functions.rs b/idlc_codegen/src/functions.rs
index 313261c..56140cb 100644
--- a/idlc_codegen/src/functions.rs
+++ b/idlc_codegen/src/functions.rs
@@ -18,6 +18,8 @@ pub trait ParameterVisitor {
     fn visit_input_bundled(&mut self, packed_primitives: &PackedPrimitives) {}
     fn visit_input_big_struct(&mut self, ident: &Ident, ty: &StructInner) {}
     fn visit_input_small_struct(&mut self, ident: &Ident, ty: &StructInner) {}
+    /// Objects in the fields of a struct value, which are conveyed as arguments of their own.
+    fn visit_input_struct_objects(&mut self, ident: &Ident, ty: &StructInner) {}
     fn visit_input_object(&mut self, ident: &Ident, ty: Option<&str>) {}
     fn visit_input_object_array(&mut self, ident: &Ident, ty: Option<&str>, cnt: Count) {}
 
@@ -30,6 +32,8 @@ pub trait ParameterVisitor {
     fn visit_output_bundled(&mut self, packed_primitives: &PackedPrimitives) {}
     fn visit_output_big_struct(&mut self, ident: &Ident, ty: &StructInner) {}
     fn visit_output_small_struct(&mut self, ident: &Ident, ty: &StructInner) {}
+    /// Objects in the fields of a struct value, which are conveyed as arguments of their own.
+    fn visit_output_struct_objects(&mut self, ident: &Ident, ty: &StructInner) {}
     fn visit_output_object(&mut self, ident: &Ident, ty: Option<&str>) {}
     fn visit_output_object_array(&mut self, ident: &Ident, ty: Option<&str>, cnt: Count) {}
 }
@@ -38,6 +42,8 @@ pub trait ParameterVisitor {
 enum Param<'a> {
     InputBundledPrimitives(&'a PackedPrimitives),
     OutputBundledPrimitives(&'a PackedPrimitives),
+    InputStructObjects(&'a Ident, &'a StructInner),
+    OutputStructObjects(&'a Ident, &'a StructInner),
     Params(&'a idlc_mir::Param),
 }
 
@@ -47,6 +53,8 @@ impl<'a> Param<'a> {
             match param {
                 Param::InputBundledPrimitives(b) => visitor.visit_input_bundled(b),
                 Param::OutputBundledPrimitives(b) => visitor.visit_output_bundled(b),
+                Param::InputStructObjects(i, s) => visitor.visit_input_struct_objects(i, s),
+                Param::OutputStructObjects(i, s) => visitor.visit_output_struct_objects(i, s),
                 Param::Params(p) => match p {
                     idlc_mir::Param::In { r#type, ident } => match r#type {
                         ParamTypeIn::Array(t, cnt) => match t {
@@ -99,45 +107,49 @@ impl<'a> Param<'a> {
         }
     }
 
+    /// Arguments of an invocation in the order the wire has them: data before
+    /// objects and, among either, inputs before outputs.
     fn new(params: &'a [idlc_mir::Param], packed_primitives: &'a PackedPrimitives) -> Vec<Self> {
-        let mut out = Vec::new();
-        if packed_primitives.n_inputs() > 1 {
-            out.push(Self::InputBundledPrimitives(packed_primitives));
-        }
-        out.extend(
+        let is_object = |p: &idlc_mir::Param| matches!(p.r#type(), Type::Interface(_));
+        let is_small = |p: &idlc_mir::Param| p.is_primitive_value() || p.is_small_struct_value();
+        let select = |input: bool, objects: bool| {
             params
                 .iter()
-                .filter(|&x| {
-                    !(packed_primitives.n_inputs() > 1
-                        && x.is_input()
-                        && (x.is_primitive_value() || x.is_small_struct_value()))
-                })
-                .filter(|x| {
-                    !(packed_primitives.n_outputs() > 1
-                        && x.is_output()
-                        && (x.is_primitive_value() || x.is_small_struct_value()))
-                })
-                .map(Param::Params),
-        );
-
-        if packed_primitives.n_outputs() > 1 {
-            let me = idlc_mir::Param::Out {
-                r#type: idlc_mir::ParamTypeOut::Array(Type::Primitive(Primitive::Uint8), None),
-                ident: idlc_mir::Ident::new_without_span(String::new()),
-            };
-            let idx = out.iter().position(|x| {
-                if let Param::Params(p) = *x {
-                    p >= &me
-                } else {
-                    false
+                .filter(move |p| p.is_input() == input && is_object(p) == objects)
+        };
+        let struct_objects = |input: bool| {
+            select(input, false).filter_map(|p| match (p.is_array(), p.r#type()) {
+                (false, Type::Struct(s)) if s.as_ref().contains_interfaces() => {
+                    Some((p.ident(), s.as_ref()))
                 }
-            });
+                _ => None,
+            })
+        };
 
-            out.insert(
-                idx.unwrap_or(out.len()),
-                Param::OutputBundledPrimitives(packed_primitives),
+        let mut out = Vec::new();
+        for (input, bundled, bundle) in [
+            (
+                true,
+                packed_primitives.n_inputs() > 1,
+                Self::InputBundledPrimitives(packed_primitives),
+            ),
+            (
+                false,
+                packed_primitives.n_outputs() > 1,
+                Self::OutputBundledPrimitives(packed_primitives),
+            ),
+        ] {
+            out.extend(bundled.then_some(bundle));
+            out.extend(
+                select(input, false)
+                    .filter(|p| !(bundled && is_small(p)))
+                    .map(Self::Params),
             );
         }
+        out.extend(struct_objects(true).map(|(i, s)| Self::InputStructObjects(i, s)));
+        out.extend(select(true, true).map(Self::Params));
+        out.extend(struct_objects(false).map(|(i, s)| Self::OutputStructObjects(i, s)));
+        out.extend(select(false, true).map(Self::Params));
 
         out
     }
@@ -150,9 +162,7 @@ pub fn visit_params<V: ParameterVisitor>(function: &Function, visitor: &mut V) {
 
 #[inline]
 pub fn visit_params_with_bundling<V: ParameterVisitor>(function: &Function, visitor: &mut V) {
-    let mut params = function.params.clone();
-    params.sort();
     let packed_primitives = super::serialization::PackedPrimitives::new(function);
-    let with_bundling = Param::new(&params, &packed_primitives);
+    let with_bundling = Param::new(&function.params, &packed_primitives);
     Param::visit(with_bundling.into_iter(), visitor);
 }
diff --git a/idlc_codegen/src/lib.rs b/idlc_codegen/src/lib.rs
index 43b40af..851873c 100644
--- a/idlc_codegen/src/lib.rs
+++ b/idlc_codegen/src/lib.rs
@@ -38,3 +38,77 @@ pub trait SplitInvokeGenerator {
     /// Generates the backend language of skel side based on input IDL
     fn generate_invoke(&self, mir: &idlc_mir::Mir) -> String;
 }
+
+/// Nodes in an order which has definitions precede what can't be compiled
+/// without them, and is the order of the source otherwise.
+#[must_use]
+pub fn definition_order(mir: &idlc_mir::Mir) -> Vec<&idlc_mir::Node> {
+    use idlc_mir::{InterfaceNode, Node, Type};
+
+    fn struct_name(ty: &Type) -> Option<&str> {
+        match ty {
+            Type::Struct(s) => Some(s.as_ref().ident.as_ref()),
+            _ => None,
+        }
+    }
+
+    fn dependencies(node: &Node) -> Vec<&str> {
+        match node {
+            Node::Include(_) | Node::Const(_) => vec![],
+            Node::Struct(s) => {
+                let fields = s.as_ref().fields.iter();
+                fields.filter_map(|f| struct_name(&f.val.0)).collect()
+            }
+            Node::Interface(i) => {
+                let base = i.base.iter().map(|base| base.ident.as_ref());
+                let structs = i.nodes.iter().flat_map(|node| match node {
+                    InterfaceNode::Function(f) => f
+                        .params
+                        .iter()
+                        .filter_map(|p| struct_name(p.r#type()))
+                        .collect(),
+                    _ => vec![],
+                });
+                base.chain(structs).collect()
+            }
+        }
+    }
+
+    let mut indices = std::collections::HashMap::new();
+    for (i, node) in mir.nodes.iter().enumerate() {
+        match node.as_ref() {
+            Node::Include(_) | Node::Const(_) => (),
+            Node::Struct(s) => {
+                indices.insert(s.as_ref().ident.as_ref(), i);
+            }
+            Node::Interface(i_) => {
+                indices.insert(i_.ident.as_ref(), i);
+            }
+        }
+    }
+
+    let mut order = Vec::with_capacity(mir.nodes.len());
+    let mut is_visited = vec![false; mir.nodes.len()];
+    for i in 0..mir.nodes.len() {
+        let mut path = vec![];
+        let mut enter = (!is_visited[i]).then_some(i);
+        loop {
+            if let Some(i) = enter {
+                is_visited[i] = true;
+                path.push((i, dependencies(&mir.nodes[i]).into_iter()));
+            }
+            let Some((i, remaining)) = path.last_mut() else {
+                break;
+            };
+            enter = remaining
+                .filter_map(|name| indices.get(name).copied())
+                .find(|&i| !is_visited[i]);
+            if enter.is_none() {
+                order.push(mir.nodes[*i].as_ref());
+                path.pop();
+            }
+        }
+    }
+
+    order
+}
diff --git a/idlc_codegen/src/serialization.rs b/idlc_codegen/src/serialization.rs
index f1a0adb..459561e 100644
--- a/idlc_codegen/src/serialization.rs
+++ b/idlc_codegen/src/serialization.rs
@@ -14,6 +14,16 @@ impl Type {
         }
     }
 }
+
+impl Type {
+    pub fn alignment(&self) -> usize {
+        match self {
+            Self::Primitive(p) => p.size(),
+            Self::SmallStruct(s) => s.alignment(),
+        }
+    }
+}
+
 impl PartialOrd<Self> for Type {
     #[inline]
     fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {
@@ -136,6 +146,18 @@ impl PackedPrimitives {
         self.input_size
     }
 
+    /// Whether a struct of the inputs needs padding unless it is declared to be packed.
+    #[must_use]
+    pub fn are_inputs_padded(&self) -> bool {
+        are_padded(self.input_types())
+    }
+
+    /// Whether a struct of the outputs needs padding unless it is declared to be packed.
+    #[must_use]
+    pub fn are_outputs_padded(&self) -> bool {
+        are_padded(self.output_types())
+    }
+
     #[must_use]
     pub fn outputs_by_idents(&self) -> impl ExactSizeIterator<Item = (&idlc_mir::Ident, &Type)> {
         self.outputs.iter().map(|pair| (&pair.ident, &pair.ty))
@@ -166,3 +188,16 @@ impl PackedPrimitives {
         self.output_size
     }
 }
+
+/// Members are in descending order of their sizes, which leaves no gap between
+/// them unless there are structs larger than their alignment.
+fn are_padded<'a>(types: impl Iterator<Item = &'a Type>) -> bool {
+    let mut offset = 0;
+    for ty in types {
+        if offset % ty.alignment() != 0 {
+            return true;
+        }
+        offset += ty.size();
+    }
+    false
+}
diff --git a/idlc_codegen_c/src/generator.rs b/idlc_codegen_c/src/generator.rs
index b34dbbb..40322ee 100644
--- a/idlc_codegen_c/src/generator.rs
+++ b/idlc_codegen_c/src/generator.rs
@@ -28,10 +28,23 @@ impl idlc_codegen::SplitInvokeGenerator for Generator {
         result.push_str(&generate_common());
 
         for node in &mir.nodes {
-            match node.as_ref() {
-                Node::Include(i) => {
-                    result.push_str(&emit_include(i));
+            if let Node::Include(i) = node.as_ref() {
+                result.push_str(&emit_include(i));
+            }
+        }
+
+        // Interfaces may refer to each other.
+        if !self.is_no_typed_objects {
+            for node in &mir.nodes {
+                if let Node::Interface(i) = node.as_ref() {
+                    result.push_str(&format!("typedef Object {};\n", i.ident));
                 }
+            }
+        }
+
+        for node in idlc_codegen::definition_order(mir) {
+            match node {
+                Node::Include(_) => (),
                 Node::Const(c) => {
                     result.push_str(&emit_const(c));
                 }
diff --git a/idlc_codegen_c/src/interface/functions/implementation.rs b/idlc_codegen_c/src/interface/functions/implementation.rs
index 35eb654..af1d2e9 100644
--- a/idlc_codegen_c/src/interface/functions/implementation.rs
+++ b/idlc_codegen_c/src/interface/functions/implementation.rs
@@ -3,17 +3,16 @@
 
 use idlc_mir::Ident;
 
-use crate::interface::variable_names::invoke::{ARGS, OBJECTBUF, OBJECTBUFIN, OP};
+use crate::interface::variable_names::invoke::{ARGS, IN, OBJECTBUF, OBJECTBUFIN, OP, OUT, RESULT};
 
 use crate::types::change_primitive;
 
-use super::serialization::TransportBuffer;
+use super::serialization::{blanked_copy, copy_of, TransportBuffer};
 
 #[derive(Debug, Clone, Default)]
 pub struct Implementation {
     pub args: Vec<String>,
     pub initializations: Vec<String>,
-    pub pre_call: Vec<String>,
     pub post_call: Vec<String>,
 
     idx: usize,
@@ -24,7 +23,6 @@ impl Implementation {
         let mut me = Self {
             args: vec![],
             initializations: vec![],
-            pre_call: vec![],
             post_call: vec![],
             idx: 0,
         };
@@ -42,10 +40,6 @@ impl Implementation {
         self.initializations.concat()
     }
 
-    pub fn pre_call_assignments(&self) -> String {
-        self.pre_call.concat()
-    }
-
     pub fn post_call_assignments(&self) -> String {
         self.post_call.concat()
     }
@@ -118,14 +112,14 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         let _idx = self.idx();
         let bi_embedded = packer.bi_embedded();
         self.initializations.push(format!(
-            r#"{definition} i;
-{0}{1}"#,
+            r#"{0}
+    {definition} {IN};{1}"#,
             bi_embedded,
             packer.bi_assignments(),
         ));
         self.args.push(format!(
             r#"
-        {{.b = ({OBJECTBUF}) {{ &i, {size} }} }},"#
+        {{.b = ({OBJECTBUF}) {{ &{IN}, {size} }} }},"#
         ));
     }
 
@@ -134,38 +128,27 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         let name = format!("{}_ptr", ident);
         let ty_ident = ty.ident.to_string();
         if ty.contains_interfaces() {
-            self.initializations.push(format!(
-                r#"{ty_ident} {ident}_cpy = *{name};
-    "#
-            ));
+            let copy = copy_of(ident);
+            self.initializations
+                .push(blanked_copy(ident, ty, &format!("*{name}")));
             self.args.push(format!(
                 r#"
-            {{.bi = ({OBJECTBUFIN}) {{ &{ident}_cpy, sizeof({ty_ident}) }} }},"#
+        {{.bi = ({OBJECTBUFIN}) {{ &{copy}, sizeof({ty_ident}) }} }},"#
             ));
-            let objects = ty.objects();
-            for object in objects {
-                let path = object
-                    .0
-                    .iter()
-                    .map(|ident| ident.to_string())
-                    .collect::<Vec<String>>()
-                    .join(".");
-                self.pre_call.push(format!(
-                    r#"{ident}_cpy.{path} = Object_NULL;
-    "#
-                ));
-                self.visit_input_object(
-                    &idlc_mir::Ident {
-                        ident: format!("{ident}_cpy.{}", path),
-                        span: object.0.last().unwrap().span,
-                    },
-                    object.1,
-                );
-            }
         } else {
             self.args.push(format!(
                 r#"
-            {{.bi = ({OBJECTBUFIN}) {{ {name}, sizeof({ty_ident}) }} }},"#
+        {{.bi = ({OBJECTBUFIN}) {{ {name}, sizeof({ty_ident}) }} }},"#
+            ));
+        }
+    }
+
+    fn visit_input_struct_objects(&mut self, ident: &Ident, ty: &idlc_mir::StructInner) {
+        for (place, _) in ty.object_slots() {
+            let _idx = self.idx();
+            self.args.push(format!(
+                r#"
+        {{.o = {ident}_ptr->{place} }},"#
             ));
         }
     }
@@ -178,7 +161,7 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         let _idx = self.idx();
         self.args.push(format!(
             r#"
-        {{.o = {ident} }},"#
+        {{.o = {ident}_obj }},"#
         ));
     }
 
@@ -188,7 +171,7 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         let ty = change_primitive(ty);
         self.post_call.push(format!(
             r#"
-    *{ident}_lenout = {ARGS}[{idx}].b.size / sizeof({ty});"#
+        *{ident}_lenout = {ARGS}[{idx}].b.size / sizeof({ty});"#
         ));
         self.args.push(format!(
             r#"
@@ -202,7 +185,7 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         let ty = ty.ident.to_string();
         self.post_call.push(format!(
             r#"
-    *{ident}_lenout = {ARGS}[{idx}].b.size / sizeof({ty});"#
+        *{ident}_lenout = {ARGS}[{idx}].b.size / sizeof({ty});"#
         ));
         self.args.push(format!(
             r#"
@@ -225,7 +208,7 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
             );
             self.post_call.push(format!(
                 r#"
-    (*{ident}_ptr)[{i}] = a[{idx}].o;"#,
+        (*{ident}_ptr)[{i}] = {ARGS}[{idx}].o;"#,
             ));
         }
     }
@@ -257,13 +240,12 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
 
         self.initializations.push(format!(
             r#"
-    {definition} o = {{{initialization}}};
-"#
+    {definition} {OUT} = {{{initialization}}};"#
         ));
         self.post_call.push(packer.post_bo_assignments());
         self.args.push(format!(
             r#"
-        {{.b = ({OBJECTBUF}) {{  &o, {size} }} }},"#
+        {{.b = ({OBJECTBUF}) {{  &{OUT}, {size} }} }},"#
         ));
     }
 
@@ -275,25 +257,26 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
             r#"
         {{.b = ({OBJECTBUF}) {{  {name}, sizeof({ty_ident}) }} }},"#
         ));
-        let objects = ty.objects();
-        for object in objects {
-            let path = object
-                .0
-                .iter()
-                .map(|ident| ident.to_string())
-                .collect::<Vec<String>>()
-                .join(".");
+        for (place, _) in ty.object_slots() {
             self.initializations.push(format!(
-                r#"{name}->{path} = Object_NULL;
-    "#
+                r#"
+    {name}->{place} = Object_NULL;"#
+            ));
+        }
+    }
+
+    fn visit_output_struct_objects(&mut self, ident: &Ident, ty: &idlc_mir::StructInner) {
+        for (place, _) in ty.object_slots() {
+            let idx = self.idx();
+            self.args.push(
+                r#"
+        {.o = Object_NULL },"#
+                    .to_string(),
+            );
+            self.post_call.push(format!(
+                r#"
+        {ident}_ptr->{place} = {ARGS}[{idx}].o;"#
             ));
-            self.visit_output_object(
-                &idlc_mir::Ident {
-                    ident: format!("{name}->{}", path),
-                    span: object.0.last().unwrap().span,
-                },
-                object.1,
-            )
         }
     }
 
@@ -303,13 +286,9 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
 
     fn visit_output_object(&mut self, ident: &Ident, _: Option<&str>) {
         let idx = self.idx();
-        let mut name = format!("{ident}");
-        if !ident.contains("->") {
-            name = format!("*{name}");
-        }
         self.post_call.push(format!(
             r#"
-    {name} = {ARGS}[{idx}].o;"#
+        *{ident}_obj = {ARGS}[{idx}].o;"#
         ));
         self.args.push(
             r#"
@@ -328,32 +307,14 @@ pub fn emit(
     signature: &super::signature::Signature,
 ) -> String {
     let ident = &function.ident;
-    let total = counts.total();
-    let mut object_args = String::new();
-    // let mut returns = String::new();
-
     let params = super::signature::iter_to_string(signature.params());
 
     let implementation = Implementation::new(function);
     let initializations = implementation.initializations();
-    let pre_call_assignments = implementation.pre_call_assignments();
     let args = implementation.args();
     let post_call_assignments = implementation.post_call_assignments();
 
-    if total > 0 {
-        object_args = format!(
-            r#"ObjectArg a[] = {{{args}
-    }};"#
-        );
-    }
-
-    let returns = if total > 0 {
-        format!("Object_invoke(self, {iface_ident}_{OP}_{ident}, a, ObjectCounts_pack({0}, {1}, {2}, {3}));",
-        counts.input_buffers,
-        counts.output_buffers,
-        counts.input_objects,
-        counts.output_objects)
-    } else {
+    if counts.total() == 0 {
         return format!(
             r#"
 {documentation}
@@ -365,36 +326,28 @@ static inline int32_t {current_iface_ident}_{ident}(Object self{params})
         );
     };
 
+    let post_call = if post_call_assignments.is_empty() {
+        String::new()
+    } else {
+        format!(
+            r#"    if (Object_OK == {RESULT}) {{{post_call_assignments}
+    }}
+"#
+        )
+    };
+
     format!(
         r#"
 {documentation}
 static inline int32_t {current_iface_ident}_{ident}(Object self{params})
-{{
-{0}{1}{2}
-    int32_t result = {returns}
-{3}
-    return result;
+{{{initializations}
+    ObjectArg {ARGS}[] = {{{args}
+    }};
+    int32_t {RESULT} = Object_invoke(self, {iface_ident}_{OP}_{ident}, {ARGS}, ObjectCounts_pack({0}, {1}, {2}, {3}));
+{post_call}
+    return {RESULT};
 }}
 "#,
-        if !initializations.is_empty() {
-            format!("    {initializations}\n")
-        } else {
-            "".to_string()
-        },
-        if !object_args.is_empty() {
-            format!("    {object_args}\n")
-        } else {
-            "".to_string()
-        },
-        if !pre_call_assignments.is_empty() {
-            format!("    {pre_call_assignments}\n")
-        } else {
-            "".to_string()
-        },
-        if !post_call_assignments.is_empty() {
-            post_call_assignments.to_string()
-        } else {
-            "".to_string()
-        }
+        counts.input_buffers, counts.output_buffers, counts.input_objects, counts.output_objects,
     )
 }
diff --git a/idlc_codegen_c/src/interface/functions/invoke.rs b/idlc_codegen_c/src/interface/functions/invoke.rs
index 5db313c..44e79a8 100644
--- a/idlc_codegen_c/src/interface/functions/invoke.rs
+++ b/idlc_codegen_c/src/interface/functions/invoke.rs
@@ -2,10 +2,12 @@
 // SPDX-License-Identifier: BSD-3-Clause
 
 use crate::{
-    interface::variable_names::invoke::{ARGS, BI, BO, CONST, OP},
+    interface::variable_names::invoke::{ARGS, BI, BO, CONST, COUNTS, IN, ME, OP, OUT, RESULT},
     types::change_primitive,
 };
 
+use idlc_codegen::serialization::Type;
+
 use super::serialization::TransportBuffer;
 
 #[derive(Debug, Default, Clone)]
@@ -13,6 +15,7 @@ pub struct Invoke {
     pub args: Vec<String>,
     pub pre: Vec<String>,
     pub post: Vec<String>,
+    pub write_back: Vec<String>,
 
     is_no_typed_objects: bool,
 
@@ -25,6 +28,7 @@ impl Invoke {
             args: vec![],
             pre: vec![],
             post: vec![],
+            write_back: vec![],
             is_no_typed_objects,
             idx: 0,
         };
@@ -50,7 +54,14 @@ impl Invoke {
     }
 
     pub fn post(&self) -> String {
-        self.post.concat()
+        self.post.concat() + &self.write_back.concat()
+    }
+
+    fn object_type<'a>(&self, ty: Option<&'a str>) -> &'a str {
+        match ty {
+            Some(ty) if !self.is_no_typed_objects => ty,
+            _ => "Object",
+        }
     }
 }
 
@@ -105,19 +116,15 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         ty: Option<&str>,
         cnt: idlc_mir::Count,
     ) {
-        let ty = if self.is_no_typed_objects {
-            "Object".to_string()
-        } else {
-            ty.unwrap_or("Object").to_string()
-        };
+        let ty = self.object_type(ty);
         let mut objs = String::new();
         for _ in 0..cnt.into() {
             let idx = self.idx();
-            objs.push_str(&format!(r"a[{idx}].o,"));
+            objs.push_str(&format!(r"{ARGS}[{idx}].o,"));
         }
         self.pre.push(format!(
             r#" \
-                const {ty} {ident}[{cnt}] = {{ {objs} }};"#,
+                {CONST} {ty} {ident}_obj[{cnt}] = {{ {objs} }};"#,
         ));
     }
 
@@ -148,8 +155,20 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         self.args.push(format!("{ARGS}[{idx}].b.size != {size}"));
         self.pre.push(format!(
             r#" \
-                {CONST} {definition} *i = (const struct {BI}*){ARGS}[{idx}].b.ptr;"#
+                {CONST} {definition} *{IN} = (const struct {BI}*){ARGS}[{idx}].b.ptr;"#
         ));
+        let is_padded = packed_primitives.are_inputs_padded();
+        for (ident, ty) in packed_primitives.inputs_by_idents() {
+            if let Type::SmallStruct(s) = ty {
+                if is_padded || s.contains_interfaces() {
+                    self.pre.push(format!(
+                        r#" \
+                {} {ident}_ptr = {IN}->m_{ident};"#,
+                        s.ident
+                    ));
+                }
+            }
+        }
     }
 
     fn visit_input_big_struct(&mut self, ident: &idlc_mir::Ident, ty: &idlc_mir::StructInner) {
@@ -163,21 +182,6 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
                 r#" \
                 {ty_ident} {name} = *({CONST} {ty_ident}*){ARGS}[{idx}].b.ptr;"#
             ));
-            let objects = ty.objects();
-            for object in objects {
-                let path = object
-                    .0
-                    .iter()
-                    .map(|ident| ident.to_string())
-                    .collect::<Vec<String>>()
-                    .join(".");
-                let idx = self.idx();
-                let field_ident = format!("{name}.{}", path);
-                self.pre.push(format!(
-                    r#" \
-                {field_ident} = {ARGS}[{idx}].o;"#
-                ));
-            }
         } else {
             self.pre.push(format!(
                 r#" \
@@ -189,13 +193,19 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         self.visit_input_big_struct(ident, ty);
     }
 
+    fn visit_input_struct_objects(&mut self, ident: &idlc_mir::Ident, ty: &idlc_mir::StructInner) {
+        for (place, _) in ty.object_slots() {
+            let idx = self.idx();
+            self.pre.push(format!(
+                r#" \
+                {ident}_ptr.{place} = {ARGS}[{idx}].o;"#
+            ));
+        }
+    }
+
     fn visit_input_object(&mut self, ident: &idlc_mir::Ident, ty: Option<&str>) {
         let idx = self.idx();
-        let ty = if self.is_no_typed_objects {
-            "Object".to_string()
-        } else {
-            ty.unwrap_or("Object").to_string()
-        };
+        let ty = self.object_type(ty);
 
         self.pre.push(format!(
             r#" \
@@ -255,19 +265,15 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         ty: Option<&str>,
         cnt: idlc_mir::Count,
     ) {
-        let name = format!("{}", ident);
-        let ty = if self.is_no_typed_objects {
-            "Object".to_string()
-        } else {
-            ty.unwrap_or("Object").to_string()
-        };
+        let name = format!("{ident}_obj");
+        let ty = self.object_type(ty);
         let mut objs = String::new();
         let mut obj_assign = String::new();
         for i in 0..cnt.into() {
             let idx = self.idx();
             objs.push_str("Object_NULL, ");
             obj_assign.push_str(&format!(
-                r#"a[{idx}].o = {name}[{i}]; \
+                r#"{ARGS}[{idx}].o = {name}[{i}]; \
                 "#
             ))
         }
@@ -288,39 +294,31 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         let sz = ty.size();
         let ty_ident = ty.ident.to_string();
         self.args.push(format!("{ARGS}[{idx}].b.size != {sz}"));
-        if ty.contains_interfaces() {
+        self.pre.push(format!(
+            r#" \
+                {ty_ident} *{name} = ({ty_ident}*){ARGS}[{idx}].b.ptr;"#
+        ));
+    }
+
+    fn visit_output_small_struct(&mut self, ident: &idlc_mir::Ident, ty: &idlc_mir::StructInner) {
+        self.visit_output_big_struct(ident, ty);
+    }
+
+    fn visit_output_struct_objects(&mut self, ident: &idlc_mir::Ident, ty: &idlc_mir::StructInner) {
+        for (place, _) in ty.object_slots() {
+            let idx = self.idx();
             self.pre.push(format!(
                 r#" \
-                {ty_ident} *{name} = &(*({ty_ident}*){ARGS}[{idx}].b.ptr);"#
+                {ident}_ptr->{place} = Object_NULL;"#
             ));
-            let objects = ty.objects();
-            for object in objects {
-                let path = object
-                    .0
-                    .iter()
-                    .map(|ident| ident.to_string())
-                    .collect::<Vec<String>>()
-                    .join(".");
-                self.visit_output_object(
-                    &idlc_mir::Ident {
-                        ident: format!("{name}->{}", path),
-                        span: object.0.last().unwrap().span,
-                    },
-                    object.1,
-                );
-            }
-        } else {
-            self.pre.push(format!(
+            self.post.push(format!(
                 r#" \
-                {ty_ident} *{name} = ({ty_ident}*){ARGS}[{idx}].b.ptr;"#
+                {ARGS}[{idx}].o = {ident}_ptr->{place}; \
+                {ident}_ptr->{place} = Object_NULL;"#
             ));
         }
     }
 
-    fn visit_output_small_struct(&mut self, ident: &idlc_mir::Ident, ty: &idlc_mir::StructInner) {
-        self.visit_output_big_struct(ident, ty);
-    }
-
     fn visit_output_primitive(&mut self, ident: &idlc_mir::Ident, ty: idlc_mir::Primitive) {
         let idx = self.idx();
         let sz = ty.size();
@@ -348,35 +346,41 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         self.args.push(format!("{ARGS}[{idx}].b.size != {size}"));
         self.pre.push(format!(
             r#" \
-                {definition} *o = (struct {BO}*){ARGS}[{idx}].b.ptr;"#
+                {definition} *{OUT} = (struct {BO}*){ARGS}[{idx}].b.ptr;"#
         ));
+        // Members of a packed struct may not be where a pointer to their type can point.
+        let is_padded = packed_primitives.are_outputs_padded();
+        for (ident, ty) in packed_primitives.outputs_by_idents() {
+            let (ty, is_struct) = match ty {
+                &Type::Primitive(p) => (change_primitive(p), false),
+                Type::SmallStruct(s) => (s.ident.as_ref(), true),
+            };
+            if is_padded {
+                self.pre.push(format!(
+                    r#" \
+                {ty} {ident}_val = {OUT}->m_{ident}; \
+                {ty} *{ident}_ptr = &{ident}_val;"#
+                ));
+                self.write_back.push(format!(
+                    r#" \
+                {OUT}->m_{ident} = {ident}_val;"#
+                ));
+            } else if is_struct {
+                self.pre.push(format!(
+                    r#" \
+                {ty} *{ident}_ptr = &{OUT}->m_{ident};"#
+                ));
+            }
+        }
     }
 
     fn visit_output_object(&mut self, ident: &idlc_mir::Ident, ty: Option<&str>) {
         let idx = self.idx();
-        let mut name = format!("{ident}");
-        let ty = if self.is_no_typed_objects {
-            "Object".to_string()
-        } else {
-            ty.unwrap_or("Object").to_string()
-        };
-        if !ident.contains("->") && !ident.contains('.') {
-            name = format!("*{name}");
-            self.pre.push(format!(
-                r#" \
-                {ty} {name} = &{ARGS}[{idx}].o;"#
-            ));
-        } else {
-            self.pre.push(format!(
-                r#" \
-                {name} = {ARGS}[{idx}].o;"#
-            ));
-            self.post.push(format!(
-                r#" \
-                {ARGS}[{idx}].o = {name}; \
-                {name} = Object_NULL;"#
-            ));
-        }
+        let ty = self.object_type(ty);
+        self.pre.push(format!(
+            r#" \
+                {ty} *{ident}_obj = &{ARGS}[{idx}].o;"#
+        ));
     }
 }
 
@@ -399,19 +403,19 @@ pub fn emit(
     let params = super::signature::iter_to_string(signature.params());
     let call = if function.is_optional() {
         weak_declarations.push_str(&format!(
-            r#"int32_t prefix##{ident}(type ctx{params}) __attribute__((weak)); \
+            r#"int32_t _prefix##{ident}(_type _ctx{params}) __attribute__((weak)); \
         "#
         ));
         format!(
-            r"int32_t r; \
-                if (prefix##{ident} != NULL) {{ \
-                    r = prefix##{ident}(me{return_idents}); \
+            r"int32_t {RESULT}; \
+                if (_prefix##{ident} != NULL) {{ \
+                    {RESULT} = _prefix##{ident}({ME}{return_idents}); \
                 }} else {{ \
                     return Object_ERROR_INVALID; \
                 }} \"
         )
     } else {
-        format!(r"int32_t r = prefix##{ident}(me{return_idents}); \")
+        format!(r"int32_t {RESULT} = _prefix##{ident}({ME}{return_idents}); \")
     };
 
     let counts = format!(
@@ -422,13 +426,13 @@ pub fn emit(
     format!(
         r#" \
             case {iface_ident}_{OP}_{ident}: {{ \
-                if (k != ObjectCounts_pack{counts}{args}) {{ \
+                if ({COUNTS} != ObjectCounts_pack{counts}{args}) {{ \
                     break; \
                 }} \
                 {pre} \
                 {call}
                 {post} \
-                return r; \
+                return {RESULT}; \
             }} "#
     )
 }
diff --git a/idlc_codegen_c/src/interface/functions/serialization.rs b/idlc_codegen_c/src/interface/functions/serialization.rs
index 2cc462d..14b0c91 100644
--- a/idlc_codegen_c/src/interface/functions/serialization.rs
+++ b/idlc_codegen_c/src/interface/functions/serialization.rs
@@ -5,7 +5,7 @@ use std::borrow::Cow;
 
 use idlc_codegen::serialization::Type;
 
-use crate::interface::variable_names::invoke::{BI, BO};
+use crate::interface::variable_names::invoke::{BI, BO, IN, OUT};
 
 use crate::types::change_primitive;
 
@@ -16,6 +16,31 @@ pub struct TransportBuffer {
     pub initialization: String,
 }
 
+/// Bundles have no padding, so that what needs some by its natural layout is packed.
+pub const PACKED: &str = "__attribute__((packed)) ";
+
+/// Name of the copy of a struct whose objects are blanked.
+pub fn copy_of(ident: &idlc_mir::Ident) -> String {
+    format!("_{ident}_cpy")
+}
+
+/// Definition of [`copy_of`] a struct.
+pub fn blanked_copy(ident: &idlc_mir::Ident, ty: &idlc_mir::StructInner, value: &str) -> String {
+    let copy = copy_of(ident);
+    let mut definition = format!(
+        r#"
+    {} {copy} = {value};"#,
+        ty.ident
+    );
+    for (place, _) in ty.object_slots() {
+        definition += &format!(
+            r#"
+    {copy}.{place} = Object_NULL;"#
+        );
+    }
+    definition
+}
+
 #[derive(Debug)]
 pub struct PackedPrimitives<'a>(&'a idlc_codegen::serialization::PackedPrimitives);
 
@@ -30,6 +55,7 @@ impl<'a> PackedPrimitives<'a> {
             self.0.inputs_by_idents(),
             self.0.packed_input_size(),
             BI,
+            self.0.are_inputs_padded(),
             is_invoke,
         )
     }
@@ -40,13 +66,18 @@ impl<'a> PackedPrimitives<'a> {
             Type::Primitive(_) => {
                 assignments += &format!(
                     r#"
-    i.m_{ident} = {ident}_val;"#
+    {IN}.m_{ident} = {ident}_val;"#
                 );
             }
-            Type::SmallStruct(_s) => {
+            Type::SmallStruct(s) => {
+                let value = if s.contains_interfaces() {
+                    copy_of(ident)
+                } else {
+                    format!("*{ident}_ptr")
+                };
                 assignments += &format!(
                     r#"
-    i.m_{ident} = *{ident}_ptr;"#
+    {IN}.m_{ident} = {value};"#
                 );
             }
         });
@@ -54,18 +85,14 @@ impl<'a> PackedPrimitives<'a> {
         assignments
     }
 
+    /// Copies of the structs which have objects blanked before they are sent.
     pub fn bi_embedded(&self) -> String {
         let mut assignments = String::new();
         self.0.inputs_by_idents().for_each(|(ident, ty)| match ty {
             Type::Primitive(_) => {}
             Type::SmallStruct(s) => {
                 if s.contains_interfaces() {
-                    let ty = s.ident.to_string();
-
-                    assignments += &format!(
-                        r#"
-    {ty} {ident}_cpy = *{ident}_ptr;"#
-                    );
+                    assignments += &blanked_copy(ident, s, &format!("*{ident}_ptr"));
                 }
             }
         });
@@ -77,47 +104,23 @@ impl<'a> PackedPrimitives<'a> {
             self.0.outputs_by_idents(),
             self.0.packed_output_size(),
             BO,
+            self.0.are_outputs_padded(),
             is_invoke,
         )
     }
 
     pub fn post_bo_assignments(&self) -> String {
         let mut assignments = String::new();
-        self.0.outputs_by_idents().for_each(|(ident, ty)| match ty {
-            Type::Primitive(_) => {
-                assignments += &format!(
-                    r"
-    *{ident}_ptr = o.m_{ident};"
-                );
-            }
-            Type::SmallStruct(_) => {
-                assignments += &format!(
-                    r"
-    *{ident}_ptr = o.m_{ident};"
-                );
-            }
+        self.0.outputs_by_idents().for_each(|(ident, _)| {
+            assignments += &format!(
+                r"
+        *{ident}_ptr = {OUT}.m_{ident};"
+            );
         });
 
         assignments
     }
 
-    pub fn bo_embedded(&self) -> Vec<(idlc_mir::Ident, &idlc_mir::Ident, Option<&str>)> {
-        let mut embedded_objs: Vec<(idlc_mir::Ident, &idlc_mir::Ident, Option<&str>)> = vec![];
-        self.0.outputs_by_idents().for_each(|(ident, ty)| match ty {
-            Type::Primitive(_) => {}
-            Type::SmallStruct(s) => {
-                if s.contains_interfaces() {
-                    for field in &s.fields {
-                        if let idlc_mir::Type::Interface(i) = &field.val.0 {
-                            embedded_objs.push((ident.clone(), &field.ident, i.as_deref()));
-                        }
-                    }
-                }
-            }
-        });
-        embedded_objs
-    }
-
     pub fn struct_init(s: &idlc_mir::StructInner, initialization: &mut String) {
         initialization.push('{');
         for field in &s.fields {
@@ -141,7 +144,13 @@ impl<'a> PackedPrimitives<'a> {
                         initialization.push_str("},");
                     }
                 }
-                idlc_mir::Type::Interface(_) => initialization.push_str("Object_NULL,"),
+                idlc_mir::Type::Interface(_) => {
+                    initialization.push_str(if count > 1 {
+                        "{Object_NULL},"
+                    } else {
+                        "Object_NULL,"
+                    });
+                }
                 _ => unreachable!(),
             }
         }
@@ -154,6 +163,7 @@ impl<'a> PackedPrimitives<'a> {
         pairs: impl Iterator<Item = (&'a idlc_mir::Ident, &'a Type)>,
         size: usize,
         in_out: &str,
+        is_packed: bool,
         is_invoke: bool,
     ) -> Option<TransportBuffer> {
         if size == 0 {
@@ -188,14 +198,15 @@ impl<'a> PackedPrimitives<'a> {
             }
         }
         initialization.pop();
+        let packed = if is_packed { PACKED } else { "" };
         let definition = if is_invoke {
             format!(
-                r#"struct {in_out} {{ \{fields}
+                r#"struct {packed}{in_out} {{ \{fields}
                 }}"#
             )
         } else {
             format!(
-                r#"struct {in_out} {{{fields}
+                r#"struct {packed}{in_out} {{{fields}
     }}"#
             )
         };
diff --git a/idlc_codegen_c/src/interface/functions/signature.rs b/idlc_codegen_c/src/interface/functions/signature.rs
index 9ff3415..8c43000 100644
--- a/idlc_codegen_c/src/interface/functions/signature.rs
+++ b/idlc_codegen_c/src/interface/functions/signature.rs
@@ -3,7 +3,7 @@
 
 use idlc_mir::{Ident, Primitive, StructInner};
 
-use crate::interface::variable_names::invoke::CONST;
+use crate::interface::variable_names::invoke::{CONST, IN, OUT};
 use crate::types::change_primitive;
 
 #[derive(Debug, Clone, Default)]
@@ -16,6 +16,8 @@ pub struct Signature {
 
     total_bundled_input: usize,
     total_bundled_output: usize,
+    is_input_padded: bool,
+    is_output_padded: bool,
     is_no_typed_objects: bool,
 }
 
@@ -54,10 +56,14 @@ impl Signature {
             input_obj_arg: vec![],
             total_bundled_input: counts.total_bundled_input,
             total_bundled_output: counts.total_bundled_output,
+            is_input_padded: false,
+            is_output_padded: false,
             is_no_typed_objects,
         };
 
         let packed_primitives = idlc_codegen::serialization::PackedPrimitives::new(function);
+        me.is_input_padded = packed_primitives.are_inputs_padded();
+        me.is_output_padded = packed_primitives.are_outputs_padded();
         let packed_input = packed_primitives.input_idents();
         let packed_output = packed_primitives.output_idents();
         me.bundled_inputs = packed_input.map(|ident| ident.to_string()).collect();
@@ -78,6 +84,25 @@ impl Signature {
             .map(|(ident, ty)| format!("{ty} {ident}"))
     }
 
+    fn object_type<'a>(&self, ty: Option<&'a str>) -> &'a str {
+        match ty {
+            Some(ty) if !self.is_no_typed_objects => ty,
+            _ => "Object",
+        }
+    }
+
+    fn is_input_bundled(&self, ident: &Ident) -> bool {
+        self.total_bundled_input > 1
+            && self.bundled_inputs.contains(&ident.to_string())
+            && self.bundled_inputs.len() > 1
+    }
+
+    fn is_output_bundled(&self, ident: &Ident) -> bool {
+        self.total_bundled_output > 1
+            && self.bundled_outputs.contains(&ident.to_string())
+            && self.bundled_outputs.len() > 1
+    }
+
     #[inline]
     pub fn return_idents(&self) -> impl Iterator<Item = &str> {
         self.outputs.iter().map(|(ident, _)| ident.as_str())
@@ -124,26 +149,21 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
 
     fn visit_input_object_array(&mut self, ident: &Ident, ty: Option<&str>, cnt: idlc_mir::Count) {
         let name = format!("(*{}_ptr)[{cnt}]", ident);
-        let ty = if self.is_no_typed_objects {
-            "Object".to_string()
-        } else {
-            format!("{CONST} {}", ty.unwrap_or("Object"))
-        };
+        let ty = format!("{CONST} {}", self.object_type(ty));
         self.inputs.push((name, ty));
         self.input_obj_arg.push(format!("{}_len", ident));
         self.outputs
-            .push((format!("&{}", ident), "size_t".to_string()));
+            .push((format!("&{}_obj", ident), "size_t".to_string()));
     }
 
     fn visit_input_primitive(&mut self, ident: &Ident, ty: Primitive) {
         self.inputs
             .push((format!("{}_val", ident), change_primitive(ty).to_string()));
-        if self.total_bundled_input > 1
-            && self.bundled_inputs.contains(&ident.to_string())
-            && self.bundled_inputs.len() > 1
-        {
-            self.outputs
-                .push((format!("i->m_{}", ident), change_primitive(ty).to_string()));
+        if self.is_input_bundled(ident) {
+            self.outputs.push((
+                format!("{IN}->m_{}", ident),
+                change_primitive(ty).to_string(),
+            ));
         } else {
             self.outputs
                 .push((format!("*{}_ptr", ident), change_primitive(ty).to_string()));
@@ -151,34 +171,19 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
     }
 
     fn visit_input_big_struct(&mut self, ident: &Ident, ty: &StructInner) {
-        self.inputs
-            .push((format!("*{}_ptr", ident), format!("{CONST} {}", ty.ident)));
-        if self.total_bundled_input > 1
-            && self.bundled_inputs.contains(&ident.to_string())
-            && self.bundled_inputs.len() > 1
-        {
-            self.outputs
-                .push((format!("&i->m_{}", ident), format!("{CONST} {}", ty.ident)));
-        } else if ty.contains_interfaces() {
-            self.outputs
-                .push((format!("&{}_ptr", ident), format!("{CONST} {}", ty.ident)));
-        } else {
-            self.outputs
-                .push((format!("{}_ptr", ident), format!("{CONST} {}", ty.ident)));
-        }
+        self.visit_input_small_struct(ident, ty);
     }
     fn visit_input_small_struct(&mut self, ident: &Ident, ty: &StructInner) {
         self.inputs
             .push((format!("*{}_ptr", ident), format!("{CONST} {}", ty.ident)));
-        if self.total_bundled_input > 1
-            && self.bundled_inputs.contains(&ident.to_string())
-            && self.bundled_inputs.len() > 1
-        {
-            self.outputs
-                .push((format!("&i->m_{}", ident), format!("{CONST} {}", ty.ident)));
-        } else if ty.contains_interfaces() {
+        if ty.contains_interfaces() || (self.is_input_padded && self.is_input_bundled(ident)) {
             self.outputs
                 .push((format!("&{}_ptr", ident), format!("{CONST} {}", ty.ident)));
+        } else if self.is_input_bundled(ident) {
+            self.outputs.push((
+                format!("&{IN}->m_{}", ident),
+                format!("{CONST} {}", ty.ident),
+            ));
         } else {
             self.outputs
                 .push((format!("{}_ptr", ident), format!("{CONST} {}", ty.ident)));
@@ -186,12 +191,8 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
     }
 
     fn visit_input_object(&mut self, ident: &Ident, ty: Option<&str>) {
-        let ty = if self.is_no_typed_objects {
-            "Object"
-        } else {
-            ty.unwrap_or("Object")
-        };
-        self.inputs.push((format!("{ident}"), ty.to_string()));
+        let ty = self.object_type(ty);
+        self.inputs.push((format!("{ident}_obj"), ty.to_string()));
         self.outputs
             .push((format!("*{}_ptr", ident), ty.to_string()));
     }
@@ -246,25 +247,20 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
 
     fn visit_output_object_array(&mut self, ident: &Ident, ty: Option<&str>, cnt: idlc_mir::Count) {
         let name = format!("(*{}_ptr)[{cnt}]", ident);
-        let ty = if self.is_no_typed_objects {
-            "Object".to_string()
-        } else {
-            ty.unwrap_or("Object").to_string()
-        };
+        let ty = self.object_type(ty).to_string();
         self.inputs.push((name, ty));
         self.outputs
-            .push((format!("&{}", ident), "size_t".to_string()));
+            .push((format!("&{}_obj", ident), "size_t".to_string()));
     }
 
     fn visit_output_primitive(&mut self, ident: &Ident, ty: Primitive) {
         self.inputs
             .push((format!("*{}_ptr", ident), change_primitive(ty).to_string()));
-        if self.total_bundled_output > 1
-            && self.bundled_outputs.contains(&ident.to_string())
-            && self.bundled_outputs.len() > 1
-        {
-            self.outputs
-                .push((format!("&o->m_{}", ident), change_primitive(ty).to_string()));
+        if self.is_output_bundled(ident) && !self.is_output_padded {
+            self.outputs.push((
+                format!("&{OUT}->m_{}", ident),
+                change_primitive(ty).to_string(),
+            ));
         } else {
             self.outputs
                 .push((format!("{}_ptr", ident), change_primitive(ty).to_string()));
@@ -274,39 +270,18 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
     fn visit_output_big_struct(&mut self, ident: &Ident, ty: &StructInner) {
         self.inputs
             .push((format!("*{}_ptr", ident), ty.ident.to_string()));
-        if self.total_bundled_output > 1
-            && self.bundled_outputs.contains(&ident.to_string())
-            && self.bundled_outputs.len() > 1
-        {
-            self.outputs
-                .push((format!("&o->m_{}", ident), ty.ident.to_string()));
-        } else {
-            self.outputs
-                .push((format!("{}_ptr", ident), ty.ident.to_string()));
-        }
+        self.outputs
+            .push((format!("{}_ptr", ident), ty.ident.to_string()));
     }
     fn visit_output_small_struct(&mut self, ident: &Ident, ty: &StructInner) {
-        self.inputs
-            .push((format!("*{}_ptr", ident), ty.ident.to_string()));
-        if self.total_bundled_output > 1
-            && self.bundled_outputs.contains(&ident.to_string())
-            && self.bundled_outputs.len() > 1
-        {
-            self.outputs
-                .push((format!("&o->m_{}", ident), ty.ident.to_string()));
-        } else {
-            self.outputs
-                .push((format!("{}_ptr", ident), ty.ident.to_string()));
-        }
+        self.visit_output_big_struct(ident, ty);
     }
 
     fn visit_output_object(&mut self, ident: &Ident, ty: Option<&str>) {
-        let ty = if self.is_no_typed_objects {
-            "Object"
-        } else {
-            ty.unwrap_or("Object")
-        };
-        self.inputs.push((format!("*{}", ident), ty.to_string()));
-        self.outputs.push((format!("{}", ident), ty.to_string()));
+        let ty = self.object_type(ty);
+        self.inputs
+            .push((format!("*{}_obj", ident), ty.to_string()));
+        self.outputs
+            .push((format!("{}_obj", ident), ty.to_string()));
     }
 }
diff --git a/idlc_codegen_c/src/interface/mod.rs b/idlc_codegen_c/src/interface/mod.rs
index 15c71a7..831a1c0 100644
--- a/idlc_codegen_c/src/interface/mod.rs
+++ b/idlc_codegen_c/src/interface/mod.rs
@@ -8,6 +8,8 @@ pub mod variable_names;
 
 use crate::types::const_expression;
 
+use variable_names::invoke::{ARGS, COUNTS, HANDLE, ME, OP_ID};
+
 pub fn emit_interface_impl(interface: &Interface, is_no_typed_objects: bool) -> String {
     let ident = interface.ident.to_string();
 
@@ -91,15 +93,9 @@ pub fn emit_interface_impl(interface: &Interface, is_no_typed_objects: bool) ->
             }
         }
     }
-    let object_defined = if is_no_typed_objects {
-        "".to_string()
-    } else {
-        format!("typedef Object {ident};")
-    };
 
     format!(
         r#"
-{object_defined}
 {constants}
 {errors}
 {op_codes}
@@ -159,14 +155,10 @@ pub fn emit_interface_invoke(interface: &Interface, is_no_typed_objects: bool) -
         }
     }
 
-    let typed_objects = (!is_no_typed_objects)
-        .then_some(format!(r#"typedef Object {ident};"#))
-        .unwrap_or_default();
-
     // weak_delcarations goes inside `func` to preserve the expected when the macro is instantiated
     // with `static IFoo_DEFINE_INVOKE`. It is OK to declare functions within functions for C.
     format!(
-        r#"{typed_objects}
+        r#"
 #ifdef __clang__
 #define __compiler_pragma_pre \
     _Pragma("clang diagnostic push") \
@@ -177,25 +169,25 @@ pub fn emit_interface_invoke(interface: &Interface, is_no_typed_objects: bool) -
 #define __compiler_pragma_post
 #endif
 
-#define {ident}_DEFINE_INVOKE(func, prefix, type) \
-    int32_t func(ObjectCxt h, ObjectOp op, ObjectArg *a, ObjectCounts k) \
+#define {ident}_DEFINE_INVOKE(_func, _prefix, _type) \
+    int32_t _func(ObjectCxt {HANDLE}, ObjectOp {OP_ID}, ObjectArg *{ARGS}, ObjectCounts {COUNTS}) \
     {{ \
         __compiler_pragma_pre \
         {weak_declarations} \
         __compiler_pragma_post \
-        type me = (type) h; \
-        switch (ObjectOp_methodID(op)) {{ \
+        _type {ME} = (_type) {HANDLE}; \
+        switch (ObjectOp_methodID({OP_ID})) {{ \
             case Object_OP_release: {{ \
-                if (k != ObjectCounts_pack(0, 0, 0, 0)) {{ \
+                if ({COUNTS} != ObjectCounts_pack(0, 0, 0, 0)) {{ \
                     break; \
                 }} \
-                return prefix##release(me); \
+                return _prefix##release({ME}); \
             }} \
             case Object_OP_retain: {{ \
-                if (k != ObjectCounts_pack(0, 0, 0, 0)) {{ \
+                if ({COUNTS} != ObjectCounts_pack(0, 0, 0, 0)) {{ \
                     break; \
                 }} \
-                return prefix##retain(me); \
+                return _prefix##retain({ME}); \
             }} \
             {invokes} \
         }} \
diff --git a/idlc_codegen_c/src/interface/variable_names.rs b/idlc_codegen_c/src/interface/variable_names.rs
index 594985e..9b2f88e 100644
--- a/idlc_codegen_c/src/interface/variable_names.rs
+++ b/idlc_codegen_c/src/interface/variable_names.rs
@@ -1,12 +1,21 @@
 // Copyright (c) 2024, Qualcomm Innovation Center, Inc. All rights reserved.
 // SPDX-License-Identifier: BSD-3-Clause
 
+/// Variables and tags of the generated functions start with an underscore, which
+/// no identifier of an IDL does.
 pub mod invoke {
     pub const CONST: &str = "const";
-    pub const ARGS: &str = "a";
+    pub const ARGS: &str = "_a";
     pub const OBJECTBUF: &str = "ObjectBuf";
     pub const OBJECTBUFIN: &str = "ObjectBufIn";
     pub const OP: &str = "OP";
-    pub const BI: &str = "bi";
-    pub const BO: &str = "bo";
+    pub const BI: &str = "_bi";
+    pub const BO: &str = "_bo";
+    pub const IN: &str = "_i";
+    pub const OUT: &str = "_o";
+    pub const RESULT: &str = "_r";
+    pub const ME: &str = "_me";
+    pub const HANDLE: &str = "_h";
+    pub const OP_ID: &str = "_op";
+    pub const COUNTS: &str = "_k";
 }
diff --git a/idlc_codegen_cpp/src/generator.rs b/idlc_codegen_cpp/src/generator.rs
index c67b87a..08a8cdf 100644
--- a/idlc_codegen_cpp/src/generator.rs
+++ b/idlc_codegen_cpp/src/generator.rs
@@ -5,7 +5,7 @@ use idlc_codegen_c::globals::emit_struct;
 use idlc_codegen_c::types::{change_primitive, const_expression};
 use idlc_mir::Node;
 
-use crate::interface::{emit_interface_impl, emit_interface_invoke};
+use crate::interface::{emit_interface_impl, emit_interface_invoke, emit_interface_methods};
 
 use idlc_codegen::MINKIDL_HEADER_COMMENT;
 pub struct Generator;
@@ -16,11 +16,23 @@ impl idlc_codegen::SplitInvokeGenerator for Generator {
         result.push_str(&generate_common());
 
         for node in &mir.nodes {
-            match node.as_ref() {
-                Node::Include(i) => {
-                    let inc_name = i.display().to_string().replace(".idl", "");
-                    result.push_str(&format!("#include \"{}.hpp\"\n", inc_name));
-                }
+            if let Node::Include(i) = node.as_ref() {
+                let inc_name = i.display().to_string().replace(".idl", "");
+                result.push_str(&format!("#include \"{}.hpp\"\n", inc_name));
+            }
+        }
+
+        // Interfaces may refer to each other.
+        for node in &mir.nodes {
+            if let Node::Interface(i) = node.as_ref() {
+                result.push_str(&format!("class {};\n", i.ident));
+            }
+        }
+
+        let nodes = idlc_codegen::definition_order(mir);
+        for node in &nodes {
+            match node {
+                Node::Include(_) => (),
                 Node::Const(c) => {
                     let ident = c.ident.to_string();
                     let cnt_ty = change_primitive(c.r#type);
@@ -37,6 +49,12 @@ impl idlc_codegen::SplitInvokeGenerator for Generator {
             }
         }
 
+        for node in nodes {
+            if let Node::Interface(i) = node {
+                result.push_str(&emit_interface_methods(i));
+            }
+        }
+
         result
     }
 
diff --git a/idlc_codegen_cpp/src/interface/functions/implementation.rs b/idlc_codegen_cpp/src/interface/functions/implementation.rs
index c743003..43a3ea3 100644
--- a/idlc_codegen_cpp/src/interface/functions/implementation.rs
+++ b/idlc_codegen_cpp/src/interface/functions/implementation.rs
@@ -1,7 +1,10 @@
 // Copyright (c) 2024, Qualcomm Innovation Center, Inc. All rights reserved.
 // SPDX-License-Identifier: BSD-3-Clause
 
-use idlc_codegen_c::interface::variable_names::invoke::{ARGS, OBJECTBUF, OBJECTBUFIN, OP};
+use idlc_codegen_c::interface::functions::serialization::{blanked_copy, copy_of};
+use idlc_codegen_c::interface::variable_names::invoke::{
+    ARGS, IN, OBJECTBUF, OBJECTBUFIN, OP, OUT, RESULT,
+};
 use idlc_mir::Ident;
 
 use super::serialization::TransportBuffer;
@@ -16,6 +19,21 @@ impl Implementation {
 
         me
     }
+
+    fn output_object(&mut self, proxy: &str, ty: Option<&str>) {
+        let idx = self.0.idx();
+        let ty = ty.unwrap_or("ProxyBase");
+        self.0.args.push(
+            r#"
+        {.o = Object_NULL },"#
+                .to_string(),
+        );
+        // Unlike `consume`, this drops the reference when it is to the object held already.
+        self.0.post_call.push(format!(
+            r#"
+    {proxy} = {ty}({ARGS}[{idx}].o);"#
+        ));
+    }
 }
 
 impl idlc_codegen::functions::ParameterVisitor for Implementation {
@@ -32,7 +50,7 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
             let _idx = self.0.idx();
             self.0.args.push(format!(
                 r#"
-        {{.o = ({ident}_ref)[{i}].get() }},"#
+        {{.o = {ident}_ref[{i}].ProxyBase::get() }},"#
             ));
         }
     }
@@ -55,13 +73,14 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         let _idx = self.0.idx();
         let bi_embedded = packer.bi_embedded();
         self.0.initializations.push(format!(
-            r#"{definition} i;{0}{1}"#,
+            r#"{0}
+    {definition} {IN};{1}"#,
             bi_embedded,
             packer.bi_assignments(),
         ));
         self.0.args.push(format!(
             r#"
-        {{.b = ({OBJECTBUF}) {{ &i, {size} }} }},"#
+        {{.b = ({OBJECTBUF}) {{ &{IN}, {size} }} }},"#
         ));
     }
 
@@ -70,35 +89,12 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         let name = format!("{}_ref", ident);
         let ty_ident = ty.ident.to_string();
         if ty.contains_interfaces() {
-            self.0.initializations.push(format!(
-                r#"
-    {ty_ident} {ident}_cpy = {name};"#
-            ));
+            let copy = copy_of(ident);
+            self.0.initializations.push(blanked_copy(ident, ty, &name));
             self.0.args.push(format!(
-                r#"{{.bi = ({OBJECTBUFIN}) {{ &{ident}_cpy, sizeof({ty_ident}) }} }},
-        "#
+                r#"
+        {{.bi = ({OBJECTBUFIN}) {{ &{copy}, sizeof({ty_ident}) }} }},"#
             ));
-
-            let objects = ty.objects();
-            for object in objects {
-                let path = object
-                    .0
-                    .iter()
-                    .map(|ident| ident.to_string())
-                    .collect::<Vec<String>>()
-                    .join(".");
-                self.0.pre_call.push(format!(
-                    r#"{ident}_cpy.{path} = Object_NULL;
-    "#
-                ));
-                self.visit_input_object(
-                    &idlc_mir::Ident {
-                        ident: format!("{ident}_cpy.{}", path),
-                        span: object.0.last().unwrap().span,
-                    },
-                    object.1,
-                );
-            }
         } else {
             self.0.args.push(format!(
                 r#"
@@ -111,22 +107,24 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         self.visit_input_big_struct(ident, ty);
     }
 
-    fn visit_input_object(&mut self, ident: &Ident, _: Option<&str>) {
-        let _idx = self.0.idx();
-        let name = format!("{}", ident);
-        if name.contains('.') {
-            self.0.args.push(format!(
-                r#"
-        {{.o = {name} }},"#
-            ));
-        } else {
+    fn visit_input_struct_objects(&mut self, ident: &Ident, ty: &idlc_mir::StructInner) {
+        for (place, _) in ty.object_slots() {
+            let _idx = self.0.idx();
             self.0.args.push(format!(
                 r#"
-        {{.o = {name}.get() }},"#
+        {{.o = {ident}_ref.{place} }},"#
             ));
         }
     }
 
+    fn visit_input_object(&mut self, ident: &Ident, _: Option<&str>) {
+        let _idx = self.0.idx();
+        self.0.args.push(format!(
+            r#"
+        {{.o = {ident}_ref.ProxyBase::get() }},"#
+        ));
+    }
+
     fn visit_output_primitive_buffer(&mut self, ident: &Ident, ty: idlc_mir::Primitive) {
         self.0.visit_output_primitive_buffer(ident, ty);
     }
@@ -135,29 +133,9 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         self.0.visit_output_struct_buffer(ident, ty);
     }
 
-    fn visit_output_object_array(
-        &mut self,
-        ident: &Ident,
-        _ty: Option<&str>,
-        cnt: idlc_mir::Count,
-    ) {
-        let idx = self.0.idx();
-        for _ in 0..cnt.into() {
-            self.0.args.push(
-                r#"
-        {.o = (Object) { NULL, NULL } },"#
-                    .to_string(),
-            );
-        }
-
-        self.0.post_call.push(format!(
-            r#"
-    for(size_t arg_idx=0;arg_idx<{cnt};arg_idx++)
-        ({ident}_ref)[arg_idx].consume(a[{idx}+arg_idx].o);"#,
-        ));
-
-        for _ in 1..cnt.into() {
-            let _idx = self.0.idx();
+    fn visit_output_object_array(&mut self, ident: &Ident, ty: Option<&str>, cnt: idlc_mir::Count) {
+        for i in 0..cnt.into() {
+            self.output_object(&format!("{ident}_ref[{i}]"), ty);
         }
     }
 
@@ -182,11 +160,11 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
 
         self.0.initializations.push(format!(
             r#"
-    {definition} o = {{{initialization}}};"#
+    {definition} {OUT} = {{{initialization}}};"#
         ));
         self.0.args.push(format!(
             r#"
-        {{.b = ({OBJECTBUF}) {{  &o, {size} }} }},"#
+        {{.b = ({OBJECTBUF}) {{  &{OUT}, {size} }} }},"#
         ));
         self.0.post_call.push(packer.post_bo_assignments());
     }
@@ -199,57 +177,41 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
             r#"
         {{.b = ({OBJECTBUF}) {{  &{name}, sizeof({ty_ident}) }} }},"#
         ));
-
-        let objects = ty.objects();
-        for object in objects {
-            let path = object
-                .0
-                .iter()
-                .map(|ident| ident.to_string())
-                .collect::<Vec<String>>()
-                .join(".");
+        for (place, _) in ty.object_slots() {
             self.0.initializations.push(format!(
                 r#"
-    {name}.{path} = Object_NULL;"#
+    {name}.{place} = Object_NULL;"#
             ));
-            self.visit_output_object(
-                &idlc_mir::Ident {
-                    ident: format!("({name}.{})", path),
-                    span: object.0.last().unwrap().span,
-                },
-                object.1,
-            )
         }
     }
 
-    fn visit_output_small_struct(&mut self, ident: &Ident, ty: &idlc_mir::StructInner) {
-        self.visit_output_big_struct(ident, ty);
-    }
-
-    fn visit_output_object(&mut self, ident: &Ident, _: Option<&str>) {
-        let idx = self.0.idx();
-        self.0.args.push(
-            r#"
-        {.o = (Object) { NULL, NULL } },"#
-                .to_string(),
-        );
-        if ident.contains('.') || ident.contains("->") {
-            self.0.post_call.push(format!(
+    fn visit_output_struct_objects(&mut self, ident: &Ident, ty: &idlc_mir::StructInner) {
+        for (place, _) in ty.object_slots() {
+            let idx = self.0.idx();
+            self.0.args.push(
                 r#"
-    {ident} = {ARGS}[{idx}].o;"#
-            ));
-        } else {
+        {.o = Object_NULL },"#
+                    .to_string(),
+            );
             self.0.post_call.push(format!(
                 r#"
-    {ident}.consume({ARGS}[{idx}].o);"#
+    {ident}_ref.{place} = {ARGS}[{idx}].o;"#
             ));
         }
     }
+
+    fn visit_output_small_struct(&mut self, ident: &Ident, ty: &idlc_mir::StructInner) {
+        self.visit_output_big_struct(ident, ty);
+    }
+
+    fn visit_output_object(&mut self, ident: &Ident, ty: Option<&str>) {
+        self.output_object(&format!("{ident}_ref"), ty);
+    }
 }
 
 pub fn emit(
     function: &idlc_mir::Function,
-    documentation: &str,
+    iface_ident: &str,
     counts: &idlc_codegen::counts::Counter,
     signature: &super::signature::Signature,
 ) -> String {
@@ -264,60 +226,37 @@ pub fn emit(
     }
 
     let implementation = Implementation::new(function);
-    let mut initializations = implementation.0.initializations();
-    let mut args = implementation.0.args();
-    let mut pre_call_assignments = implementation.0.pre_call_assignments();
-    let mut post_call_assignments = implementation.0.post_call_assignments();
-    initializations = initializations.replace('\n', "\n    ");
-    args = args.replace('\n', "\n    ");
-    pre_call_assignments = pre_call_assignments.replace('\n', "\n    ");
-    post_call_assignments = post_call_assignments.replace('\n', "\n    ");
+    let initializations = implementation.0.initializations();
+    let args = implementation.0.args();
+    let post_call_assignments = implementation.0.post_call_assignments();
 
     if total > 0 {
         object_args = format!(
             r#"
-        ObjectArg a[] = {{{args}
-        }};"#
+    ObjectArg {ARGS}[] = {{{args}
+    }};"#
         );
     }
 
     let returns = if total > 0 {
         format!(
-            "invoke({OP}_{ident}, a, ObjectCounts_pack({0}, {1}, {2}, {3}));",
+            "ProxyBase::invoke({OP}_{ident}, {ARGS}, ObjectCounts_pack({0}, {1}, {2}, {3}));",
             counts.input_buffers,
             counts.output_buffers,
             counts.input_objects,
             counts.output_objects
         )
     } else {
-        format!("invoke({OP}_{ident}, 0, 0);")
+        format!("ProxyBase::invoke({OP}_{ident}, 0, 0);")
     };
 
     format!(
         r#"
-{documentation}
-    virtual int32_t {ident}({params}) {{
-{0}{1}{2}
-        int32_t result = {returns}
-        if (Object_OK != result) {{ return result; }}
-{post_call_assignments}
-        return result;
-    }}
-"#,
-        if !initializations.is_empty() {
-            format!("        {initializations}\n")
-        } else {
-            "".to_string()
-        },
-        if !object_args.is_empty() {
-            format!("{object_args}\n")
-        } else {
-            "".to_string()
-        },
-        if !pre_call_assignments.is_empty() {
-            format!("        {pre_call_assignments}\n")
-        } else {
-            "".to_string()
-        },
+inline int32_t {iface_ident}::{ident}({params}) {{{initializations}{object_args}
+    int32_t {RESULT} = {returns}
+    if (Object_OK != {RESULT}) {{ return {RESULT}; }}{post_call_assignments}
+    return {RESULT};
+}}
+"#
     )
 }
diff --git a/idlc_codegen_cpp/src/interface/functions/invoke.rs b/idlc_codegen_cpp/src/interface/functions/invoke.rs
index e48a7b8..811e06b 100644
--- a/idlc_codegen_cpp/src/interface/functions/invoke.rs
+++ b/idlc_codegen_cpp/src/interface/functions/invoke.rs
@@ -1,7 +1,7 @@
 // Copyright (c) 2024, Qualcomm Innovation Center, Inc. All rights reserved.
 // SPDX-License-Identifier: BSD-3-Clause
 
-use idlc_codegen_c::interface::variable_names::invoke::{ARGS, OP};
+use idlc_codegen_c::interface::variable_names::invoke::{ARGS, COUNTS, OP, RESULT};
 
 use idlc_mir::Ident;
 
@@ -15,6 +15,22 @@ impl Invoke {
 
         me
     }
+
+    /// Input objects remain the caller's.
+    fn give_back(&mut self, proxy: &str) {
+        self.0.post.push(format!(
+            r#" \
+                {proxy}.ProxyBase::extract();"#
+        ));
+    }
+
+    /// Output objects become the caller's, unless the call fails.
+    fn transfer(&mut self, idx: usize, proxy: &str) {
+        self.0.post.push(format!(
+            r#" \
+                if (Object_OK == {RESULT}) {{ {ARGS}[{idx}].o = {proxy}.ProxyBase::extract(); }}"#
+        ));
+    }
 }
 
 impl idlc_codegen::functions::ParameterVisitor for Invoke {
@@ -36,18 +52,16 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         ty: Option<&str>,
         cnt: idlc_mir::Count,
     ) {
-        let ty = ty.unwrap_or("ProxyBase").to_string();
+        let ty = ty.unwrap_or("ProxyBase");
         let mut obj_args = String::new();
-        for _ in 0..cnt.into() {
+        for i in 0..cnt.into() {
             let idx = self.0.idx();
-            obj_args.push_str(&format!(r"a[{idx}].o,"));
+            obj_args.push_str(&format!("{ty}({ARGS}[{idx}].o), "));
+            self.give_back(&format!("{ident}_obj[{i}]"));
         }
         self.0.pre.push(format!(
             r#" \
-                const union {ident} {{
-                    ~{ident}() {{}}
-                    {ty} inner[{cnt}];
-                }} {ident} = {{.inner= {{ {obj_args} }}}};"#,
+                {ty} {ident}_obj[{cnt}] = {{ {obj_args}}};"#,
         ));
     }
 
@@ -70,17 +84,18 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         self.visit_input_big_struct(ident, ty);
     }
 
+    fn visit_input_struct_objects(&mut self, ident: &Ident, ty: &idlc_mir::StructInner) {
+        self.0.visit_input_struct_objects(ident, ty);
+    }
+
     fn visit_input_object(&mut self, ident: &Ident, ty: Option<&str>) {
         let idx = self.0.idx();
-        let ty = ty.unwrap_or("ProxyBase").to_string();
+        let ty = ty.unwrap_or("ProxyBase");
         self.0.pre.push(format!(
             r#" \
-                {ty} p_{ident}({ARGS}[{idx}].o);"#
-        ));
-        self.0.post.push(format!(
-            r#" \
-                p_{ident}.extract();"#
+                {ty} {ident}_obj({ARGS}[{idx}].o);"#
         ));
+        self.give_back(&format!("{ident}_obj"));
     }
 
     fn visit_output_primitive_buffer(&mut self, ident: &Ident, ty: idlc_mir::Primitive) {
@@ -101,24 +116,14 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         ty: Option<&str>,
         cnt: idlc_mir::Count,
     ) {
-        let ty = ty.unwrap_or("ProxyBase").to_string();
-        let mut objs = String::new();
-        let mut obj_assign = String::new();
+        let ty = ty.unwrap_or("ProxyBase");
         for i in 0..cnt.into() {
             let idx = self.0.idx();
-            objs.push_str("Object_NULL, ");
-            obj_assign.push_str(&format!(
-                r#"
-                {ARGS}[{idx}].o=p_{ident}[{i}].extract();"#
-            ));
+            self.transfer(idx, &format!("{ident}_obj[{i}]"));
         }
         self.0.pre.push(format!(
             r#" \
-                {ty} p_{ident}[{cnt}] = {{ {objs} }};"#
-        ));
-        self.0.post.push(format!(
-            r#" \
-{obj_assign}"#,
+                {ty} {ident}_obj[{cnt}];"#
         ));
     }
 
@@ -134,58 +139,25 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
     }
 
     fn visit_output_big_struct(&mut self, ident: &Ident, ty: &idlc_mir::StructInner) {
-        // self.0.visit_output_big_struct(ident, ty);
-        let idx = self.0.idx();
-        let name = format!("{}_ptr", ident);
-        let sz = ty.size();
-        let ty_ident = ty.ident.to_string();
-        self.0.args.push(format!("{ARGS}[{idx}].b.size != {sz}"));
-        if ty.contains_interfaces() {
-            let name = format!("{}_ptr", ident);
-            self.0.pre.push(format!(
-                r#" \
-                {ty_ident} *{name} = &(*({ty_ident}*){ARGS}[{idx}].b.ptr);"#
-            ));
-
-            let objects = ty.objects();
-            for object in objects {
-                let path = object
-                    .0
-                    .iter()
-                    .map(|ident| ident.to_string())
-                    .collect::<Vec<String>>()
-                    .join("->");
-                self.0.visit_output_object(
-                    &idlc_mir::Ident {
-                        ident: format!("{name}->{}", path),
-                        span: object.0.last().unwrap().span,
-                    },
-                    object.1,
-                );
-            }
-        } else {
-            self.0.pre.push(format!(
-                r#" \
-                {ty_ident} *{name} = ({ty_ident}*){ARGS}[{idx}].b.ptr;"#
-            ));
-        }
+        self.0.visit_output_big_struct(ident, ty);
     }
 
     fn visit_output_small_struct(&mut self, ident: &Ident, ty: &idlc_mir::StructInner) {
-        self.visit_output_big_struct(ident, ty);
+        self.0.visit_output_small_struct(ident, ty);
+    }
+
+    fn visit_output_struct_objects(&mut self, ident: &Ident, ty: &idlc_mir::StructInner) {
+        self.0.visit_output_struct_objects(ident, ty);
     }
 
     fn visit_output_object(&mut self, ident: &Ident, ty: Option<&str>) {
         let idx = self.0.idx();
-        let ty = ty.unwrap_or("ProxyBase").to_string();
+        let ty = ty.unwrap_or("ProxyBase");
         self.0.pre.push(format!(
             r#" \
-                {ty} p_{ident};"#
-        ));
-        self.0.post.push(format!(
-            r#" \
-                {ARGS}[{idx}].o = p_{ident}.extract();"#
+                {ty} {ident}_obj;"#
         ));
+        self.transfer(idx, &format!("{ident}_obj"));
     }
 }
 
@@ -232,13 +204,13 @@ pub fn emit(
     format!(
         r#"
             case {OP}_{ident}: {{
-                if (k != ObjectCounts_pack{counts}{args}) {{
+                if ({COUNTS} != ObjectCounts_pack{counts}{args}) {{
                     break;
                 }}
 {pre}
-                int32_t r = {ident}({return_idents});
+                int32_t {RESULT} = {ident}({return_idents});
 {post}
-                return r;
+                return {RESULT};
             }}"#
     )
 }
diff --git a/idlc_codegen_cpp/src/interface/functions/serialization.rs b/idlc_codegen_cpp/src/interface/functions/serialization.rs
index c90d1e9..33d933f 100644
--- a/idlc_codegen_cpp/src/interface/functions/serialization.rs
+++ b/idlc_codegen_cpp/src/interface/functions/serialization.rs
@@ -1,20 +1,11 @@
 // Copyright (c) 2024, Qualcomm Innovation Center, Inc. All rights reserved.
 // SPDX-License-Identifier: BSD-3-Clause
 
-use std::borrow::Cow;
-
 use idlc_codegen::serialization::Type;
 
-use idlc_codegen_c::interface::variable_names::invoke::{BI, BO};
-
-use idlc_codegen_c::types::change_primitive;
-
-#[derive(Debug, Clone)]
-pub struct TransportBuffer {
-    pub definition: String,
-    pub size: usize,
-    pub initialization: String,
-}
+pub use idlc_codegen_c::interface::functions::serialization::TransportBuffer;
+use idlc_codegen_c::interface::functions::serialization::{blanked_copy, copy_of};
+use idlc_codegen_c::interface::variable_names::invoke::{IN, OUT};
 
 #[derive(Debug)]
 pub struct PackedPrimitives<'a>(&'a idlc_codegen::serialization::PackedPrimitives);
@@ -26,12 +17,8 @@ impl<'a> PackedPrimitives<'a> {
     }
 
     pub fn bi_definition(&self, is_invoke: bool) -> Option<TransportBuffer> {
-        Self::generate_struct(
-            self.0.inputs_by_idents(),
-            self.0.packed_input_size(),
-            BI,
-            is_invoke,
-        )
+        idlc_codegen_c::interface::functions::serialization::PackedPrimitives::new(self.0)
+            .bi_definition(is_invoke)
     }
 
     pub fn bi_assignments(&self) -> String {
@@ -40,39 +27,33 @@ impl<'a> PackedPrimitives<'a> {
             Type::Primitive(_) => {
                 assignments += &format!(
                     r#"
-    i.m_{ident} = {ident}_val;"#
+    {IN}.m_{ident} = {ident}_val;"#
                 );
             }
             Type::SmallStruct(s) => {
-                if s.contains_interfaces() {
-                    assignments += &format!(
-                        r#"
-    i.m_{ident} = {ident}_cpy;"#
-                    );
+                let value = if s.contains_interfaces() {
+                    copy_of(ident)
                 } else {
-                    assignments += &format!(
-                        r#"
-    i.m_{ident} = {ident}_ref;"#
-                    );
-                }
+                    format!("{ident}_ref")
+                };
+                assignments += &format!(
+                    r#"
+    {IN}.m_{ident} = {value};"#
+                );
             }
         });
 
         assignments
     }
 
-    #[allow(clippy::type_complexity)]
+    /// Copies of the structs which have objects blanked before they are sent.
     pub fn bi_embedded(&self) -> String {
         let mut assignments = String::new();
         self.0.inputs_by_idents().for_each(|(ident, ty)| match ty {
             Type::Primitive(_) => {}
             Type::SmallStruct(s) => {
                 if s.contains_interfaces() {
-                    let ty = s.ident.to_string();
-                    assignments += &format!(
-                        r#"
-    {ty} {ident}_cpy = {ident}_ref;"#
-                    );
+                    assignments += &blanked_copy(ident, s, &format!("{ident}_ref"));
                 }
             }
         });
@@ -80,12 +61,8 @@ impl<'a> PackedPrimitives<'a> {
     }
 
     pub fn bo_definition(&self, is_invoke: bool) -> Option<TransportBuffer> {
-        Self::generate_struct(
-            self.0.outputs_by_idents(),
-            self.0.packed_output_size(),
-            BO,
-            is_invoke,
-        )
+        idlc_codegen_c::interface::functions::serialization::PackedPrimitives::new(self.0)
+            .bo_definition(is_invoke)
     }
 
     pub fn post_bo_assignments(&self) -> String {
@@ -94,74 +71,17 @@ impl<'a> PackedPrimitives<'a> {
             Type::Primitive(_) => {
                 assignments += &format!(
                     r#"
-    *{ident}_ptr = o.m_{ident};"#
+    *{ident}_ptr = {OUT}.m_{ident};"#
                 );
             }
             Type::SmallStruct(_) => {
                 assignments += &format!(
                     r#"
-    {ident}_ref = o.m_{ident};"#
+    {ident}_ref = {OUT}.m_{ident};"#
                 );
             }
         });
 
         assignments
     }
-
-    #[inline]
-    fn generate_struct(
-        pairs: impl Iterator<Item = (&'a idlc_mir::Ident, &'a Type)>,
-        size: usize,
-        in_out: &str,
-        is_invoke: bool,
-    ) -> Option<TransportBuffer> {
-        if size == 0 {
-            return None;
-        }
-
-        let mut fields = String::new();
-        let mut initialization = String::new();
-        for (ident, ty) in pairs {
-            let ty = match ty {
-                &Type::Primitive(p) => {
-                    initialization.push_str("0,");
-                    Cow::Borrowed(change_primitive(p))
-                }
-                Type::SmallStruct(s) => {
-                    idlc_codegen_c::interface::functions::serialization::PackedPrimitives::struct_init(s, &mut initialization);
-                    Cow::Owned(s.ident.to_string())
-                }
-            };
-            if is_invoke {
-                fields.push_str(&format!(
-                    r#"
-                    {} m_{}; \"#,
-                    ty, ident
-                ));
-            } else {
-                fields.push_str(&format!(
-                    r#"
-        {} m_{};"#,
-                    ty, ident
-                ));
-            }
-        }
-        initialization.pop();
-        let definition = if is_invoke {
-            format!(
-                r#"struct {in_out} {{ \{fields}
-                }}"#
-            )
-        } else {
-            format!(
-                r#"struct {in_out} {{{fields}
-    }}"#
-            )
-        };
-        Some(TransportBuffer {
-            definition,
-            size,
-            initialization,
-        })
-    }
 }
diff --git a/idlc_codegen_cpp/src/interface/functions/signature.rs b/idlc_codegen_cpp/src/interface/functions/signature.rs
index a21e694..7479678 100644
--- a/idlc_codegen_cpp/src/interface/functions/signature.rs
+++ b/idlc_codegen_cpp/src/interface/functions/signature.rs
@@ -3,7 +3,7 @@
 
 use idlc_mir::{Ident, Primitive, StructInner};
 
-use idlc_codegen_c::interface::variable_names::invoke::CONST;
+use idlc_codegen_c::interface::variable_names::invoke::{CONST, IN, OUT};
 use idlc_codegen_c::types::change_primitive;
 
 #[derive(Debug, Clone, Default)]
@@ -14,6 +14,8 @@ pub struct Signature {
     bundled_outputs: Vec<String>,
     input_obj_arg: Vec<String>,
     output_obj_arg: Vec<String>,
+    is_input_padded: bool,
+    is_output_padded: bool,
 
     total_bundled_input: usize,
     total_bundled_output: usize,
@@ -28,11 +30,15 @@ impl Signature {
             bundled_outputs: vec![],
             input_obj_arg: vec![],
             output_obj_arg: vec![],
+            is_input_padded: false,
+            is_output_padded: false,
             total_bundled_input: counts.total_bundled_input,
             total_bundled_output: counts.total_bundled_output,
         };
 
         let packed_primitives = idlc_codegen::serialization::PackedPrimitives::new(function);
+        me.is_input_padded = packed_primitives.are_inputs_padded();
+        me.is_output_padded = packed_primitives.are_outputs_padded();
         let packed_input = packed_primitives.input_idents();
         let packed_output = packed_primitives.output_idents();
         me.bundled_inputs = packed_input.map(|ident| ident.to_string()).collect();
@@ -49,6 +55,14 @@ impl Signature {
             .map(|(ident, ty)| format!("{ty} {ident}"))
     }
 
+    fn is_input_bundled(&self, ident: &Ident) -> bool {
+        self.total_bundled_input > 1 && self.bundled_inputs.contains(&ident.to_string())
+    }
+
+    fn is_output_bundled(&self, ident: &Ident) -> bool {
+        self.total_bundled_output > 1 && self.bundled_outputs.contains(&ident.to_string())
+    }
+
     #[inline]
     pub fn return_idents(&self) -> impl Iterator<Item = &str> {
         self.outputs.iter().map(|(ident, _)| ident.as_str())
@@ -95,19 +109,21 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
 
     fn visit_input_object_array(&mut self, ident: &Ident, ty: Option<&str>, cnt: idlc_mir::Count) {
         let name = format!("(&{}_ref)[{cnt}]", ident);
-        let ty = format!("{CONST} {}", ty.unwrap_or("Object"));
+        let ty = format!("{CONST} {}", ty.unwrap_or("ProxyBase"));
         self.inputs.push((name, ty));
         self.input_obj_arg.push(format!("{}_len", ident));
         self.outputs
-            .push((format!("{}.inner", ident), "size_t".to_string()));
+            .push((format!("{}_obj", ident), "size_t".to_string()));
     }
 
     fn visit_input_primitive(&mut self, ident: &Ident, ty: Primitive) {
         self.inputs
             .push((format!("{}_val", ident), change_primitive(ty).to_string()));
-        if self.total_bundled_input > 1 && self.bundled_inputs.contains(&ident.to_string()) {
-            self.outputs
-                .push((format!("i->m_{}", ident), change_primitive(ty).to_string()));
+        if self.is_input_bundled(ident) {
+            self.outputs.push((
+                format!("{IN}->m_{}", ident),
+                change_primitive(ty).to_string(),
+            ));
         } else {
             self.outputs
                 .push((format!("*{}_ptr", ident), change_primitive(ty).to_string()));
@@ -117,39 +133,32 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
     fn visit_input_big_struct(&mut self, ident: &Ident, ty: &StructInner) {
         self.inputs
             .push((format!("&{}_ref", ident), format!("{CONST} {}", ty.ident)));
-        if self.total_bundled_input > 1 && self.bundled_inputs.contains(&ident.to_string()) {
-            self.outputs
-                .push((format!("i->m_{}", ident), format!("{CONST} {}", ty.ident)));
-        } else if ty.contains_interfaces() {
+        if ty.contains_interfaces() || (self.is_input_padded && self.is_input_bundled(ident)) {
             self.outputs
                 .push((format!("{}_ptr", ident), format!("{CONST} {}", ty.ident)));
+        } else if self.is_input_bundled(ident) {
+            self.outputs.push((
+                format!("{IN}->m_{}", ident),
+                format!("{CONST} {}", ty.ident),
+            ));
         } else {
             self.outputs
                 .push((format!("*{}_ptr", ident), format!("{CONST} {}", ty.ident)));
         }
     }
     fn visit_input_small_struct(&mut self, ident: &Ident, ty: &StructInner) {
-        self.inputs
-            .push((format!("&{}_ref", ident), format!("{CONST} {}", ty.ident)));
-        if self.total_bundled_input > 1 && self.bundled_inputs.contains(&ident.to_string()) {
-            self.outputs
-                .push((format!("i->m_{}", ident), format!("{CONST} {}", ty.ident)));
-        } else if ty.contains_interfaces() {
-            self.outputs
-                .push((format!("{}_ptr", ident), format!("{CONST} {}", ty.ident)));
-        } else {
-            self.outputs
-                .push((format!("*{}_ptr", ident), format!("{CONST} {}", ty.ident)));
-        }
+        self.visit_input_big_struct(ident, ty);
     }
 
     fn visit_input_object(&mut self, ident: &Ident, ty: Option<&str>) {
         self.inputs.push((
-            format!("&{}", ident),
+            format!("&{}_ref", ident),
             format!("{CONST} {}", ty.unwrap_or("ProxyBase")),
         ));
-        self.outputs
-            .push((format!("p_{}", ident), ty.unwrap_or("Object").to_string()));
+        self.outputs.push((
+            format!("{}_obj", ident),
+            ty.unwrap_or("ProxyBase").to_string(),
+        ));
     }
 
     fn visit_output_primitive_buffer(&mut self, ident: &Ident, ty: Primitive) {
@@ -202,19 +211,21 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
 
     fn visit_output_object_array(&mut self, ident: &Ident, ty: Option<&str>, cnt: idlc_mir::Count) {
         let name = format!("(&{}_ref)[{cnt}]", ident);
-        let ty = ty.unwrap_or("Object").to_string();
+        let ty = ty.unwrap_or("ProxyBase").to_string();
         self.inputs.push((name, ty));
         self.output_obj_arg.push(format!("{}_len", ident));
         self.outputs
-            .push((format!("p_{}", ident), "size_t".to_string()));
+            .push((format!("{}_obj", ident), "size_t".to_string()));
     }
 
     fn visit_output_primitive(&mut self, ident: &Ident, ty: Primitive) {
         self.inputs
             .push((format!("*{}_ptr", ident), change_primitive(ty).to_string()));
-        if self.total_bundled_output > 1 && self.bundled_outputs.contains(&ident.to_string()) {
-            self.outputs
-                .push((format!("&o->m_{}", ident), change_primitive(ty).to_string()));
+        if self.is_output_bundled(ident) && !self.is_output_padded {
+            self.outputs.push((
+                format!("&{OUT}->m_{}", ident),
+                change_primitive(ty).to_string(),
+            ));
         } else {
             self.outputs
                 .push((format!("{}_ptr", ident), change_primitive(ty).to_string()));
@@ -224,30 +235,21 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
     fn visit_output_big_struct(&mut self, ident: &Ident, ty: &StructInner) {
         self.inputs
             .push((format!("&{}_ref", ident), ty.ident.to_string()));
-        if self.total_bundled_output > 1 && self.bundled_outputs.contains(&ident.to_string()) {
-            self.outputs
-                .push((format!("o->m_{}", ident), ty.ident.to_string()));
-        } else {
-            self.outputs
-                .push((format!("*{}_ptr", ident), ty.ident.to_string()));
-        }
+        self.outputs
+            .push((format!("*{}_ptr", ident), ty.ident.to_string()));
     }
     fn visit_output_small_struct(&mut self, ident: &Ident, ty: &StructInner) {
-        self.inputs
-            .push((format!("&{}_ref", ident), ty.ident.to_string()));
-        if self.total_bundled_output > 1 && self.bundled_outputs.contains(&ident.to_string()) {
-            self.outputs
-                .push((format!("o->m_{}", ident), ty.ident.to_string()));
-        } else {
-            self.outputs
-                .push((format!("*{}_ptr", ident), ty.ident.to_string()));
-        }
+        self.visit_output_big_struct(ident, ty);
     }
 
     fn visit_output_object(&mut self, ident: &Ident, ty: Option<&str>) {
-        self.inputs
-            .push((format!("&{}", ident), ty.unwrap_or("ProxyBase").to_string()));
-        self.outputs
-            .push((format!("p_{}", ident), ty.unwrap_or("Object").to_string()));
+        self.inputs.push((
+            format!("&{}_ref", ident),
+            ty.unwrap_or("ProxyBase").to_string(),
+        ));
+        self.outputs.push((
+            format!("{}_obj", ident),
+            ty.unwrap_or("ProxyBase").to_string(),
+        ));
     }
 }
diff --git a/idlc_codegen_cpp/src/interface/mod.rs b/idlc_codegen_cpp/src/interface/mod.rs
index c2dc4f7..bf4fd44 100644
--- a/idlc_codegen_cpp/src/interface/mod.rs
+++ b/idlc_codegen_cpp/src/interface/mod.rs
@@ -5,12 +5,17 @@ use idlc_mir::{Interface, InterfaceNode};
 
 mod functions;
 
+use idlc_codegen_c::interface::variable_names::invoke::{ARGS, COUNTS, OP_ID};
 use idlc_codegen_c::types::{change_primitive, const_expression};
 
 pub fn emit_interface_impl(interface: &Interface) -> String {
     let ident = interface.ident.to_string();
 
-    let mut base_iface = String::new();
+    let base_iface = interface
+        .base
+        .as_ref()
+        .map(|base| format!(": public I{} ", base.ident))
+        .unwrap_or_default();
     let mut constants = String::new();
     let mut errors = String::new();
     let mut op_codes = String::new();
@@ -19,7 +24,6 @@ pub fn emit_interface_impl(interface: &Interface) -> String {
 
     // need to have all of the base-class functions, error-codes and const values
     interface.iter().skip(1).for_each(|iface| {
-        base_iface.push_str(&format!("I{} ", &iface.ident.to_string()));
         iface.nodes.iter().for_each(|node| match node {
             InterfaceNode::Const(c) => {
                 constants.push_str(&format!(
@@ -41,17 +45,8 @@ pub fn emit_interface_impl(interface: &Interface) -> String {
             InterfaceNode::Function(f) => {
                 let counts = idlc_codegen::counts::Counter::new(f);
                 let signature = functions::signature::Signature::new(f, &counts);
-                let documentation = idlc_codegen::documentation::Documentation::new(
-                    f,
-                    idlc_codegen::documentation::DocumentationStyle::C,
-                );
 
-                implementations.push_str(&functions::implementation::emit(
-                    f,
-                    &documentation,
-                    &counts,
-                    &signature,
-                ));
+                implementations.push_str(&declaration(f, &signature));
             }
         })
     });
@@ -78,10 +73,6 @@ pub fn emit_interface_impl(interface: &Interface) -> String {
             InterfaceNode::Function(f) => {
                 let counts = idlc_codegen::counts::Counter::new(f);
                 let signature = functions::signature::Signature::new(f, &counts);
-                let documentation = idlc_codegen::documentation::Documentation::new(
-                    f,
-                    idlc_codegen::documentation::DocumentationStyle::C,
-                );
                 let mut params = idlc_codegen_c::interface::functions::signature::iter_to_string(
                     signature.params(),
                 );
@@ -98,23 +89,13 @@ pub fn emit_interface_impl(interface: &Interface) -> String {
     static const ObjectOp OP_{} = {};"#,
                     f.ident, f.id,
                 ));
-                implementations.push_str(&functions::implementation::emit(
-                    f,
-                    &documentation,
-                    &counts,
-                    &signature,
-                ));
+                implementations.push_str(&declaration(f, &signature));
             }
         }
     }
 
-    if !base_iface.is_empty() {
-        base_iface = format!(": public {base_iface}");
-    }
-
     format!(
         r#"
-class {ident};
 class I{ident} {base_iface}{{
   public:{constants}
 {errors}
@@ -139,6 +120,53 @@ class {ident} : public I{ident}, public ProxyBase {{
     )
 }
 
+/// Methods of the proxy, which follow all classes as they need them to be complete.
+pub fn emit_interface_methods(interface: &Interface) -> String {
+    let mut implementations = String::new();
+    let mut emit = |iface: &Interface| {
+        for node in &iface.nodes {
+            if let InterfaceNode::Function(f) = node {
+                let counts = idlc_codegen::counts::Counter::new(f);
+                let signature = functions::signature::Signature::new(f, &counts);
+                implementations.push_str(&functions::implementation::emit(
+                    f,
+                    &interface.ident,
+                    &counts,
+                    &signature,
+                ));
+            }
+        }
+    };
+    interface.iter().skip(1).for_each(&mut emit);
+    emit(interface);
+
+    implementations
+}
+
+/// Declaration of a method of the proxy.
+fn declaration(
+    function: &idlc_mir::Function,
+    signature: &functions::signature::Signature,
+) -> String {
+    let ident = &function.ident;
+    let documentation = idlc_codegen::documentation::Documentation::new(
+        function,
+        idlc_codegen::documentation::DocumentationStyle::C,
+    );
+    let mut params =
+        idlc_codegen_c::interface::functions::signature::iter_to_string(signature.params());
+    if !params.is_empty() {
+        params.remove(0);
+    }
+
+    format!(
+        r#"
+{documentation}
+    virtual int32_t {ident}({params});
+"#
+    )
+}
+
 pub fn emit_interface_invoke(interface: &Interface) -> String {
     let ident = interface.ident.to_string();
 
@@ -184,8 +212,8 @@ class {ident}ImplBase : protected ImplBase, public I{ident} {{
     virtual ~{ident}ImplBase() {{}}
 {weak_declarations}
   protected:
-    virtual int32_t invoke(ObjectOp op, ObjectArg* a, ObjectCounts k) {{
-        switch (ObjectOp_methodID(op)) {{
+    virtual int32_t invoke(ObjectOp {OP_ID}, ObjectArg* {ARGS}, ObjectCounts {COUNTS}) {{
+        switch (ObjectOp_methodID({OP_ID})) {{
 {invokes}
             default: {{ return Object_ERROR_INVALID; }}
         }}
diff --git a/idlc_codegen_rust/src/interface/functions/implementation.rs b/idlc_codegen_rust/src/interface/functions/implementation.rs
index 5d486aa..8d34406 100644
--- a/idlc_codegen_rust/src/interface/functions/implementation.rs
+++ b/idlc_codegen_rust/src/interface/functions/implementation.rs
@@ -1,10 +1,11 @@
 // Copyright (c) 2024, Qualcomm Innovation Center, Inc. All rights reserved.
 // SPDX-License-Identifier: BSD-3-Clause
 
+use idlc_codegen::serialization::Type;
 use idlc_mir::Ident;
 
 use crate::interface::mink_primitives::{OK, PACK_COUNTS};
-use crate::interface::variable_names::invoke::{ARGS, BI_STRUCT, BO_STRUCT};
+use crate::interface::variable_names::invoke::{ARGS, BI, BI_STRUCT, BO, BO_STRUCT};
 use crate::types::change_primitive;
 
 use crate::interface::mink_primitives::ARG;
@@ -12,7 +13,8 @@ use crate::interface::mink_primitives::ARG;
 use crate::ident::EscapedIdent;
 use crate::types::namespaced_struct;
 
-use super::serialization::TransportBuffer;
+use super::serialization::{copy_of, TransportBuffer, MAYBE_UNINIT};
+use super::signature::lenout_of;
 const INPUT_BUFFER: &str = crate::interface::mink_primitives::namespace!("BufIn");
 const OUTPUT_BUFFER: &str = crate::interface::mink_primitives::namespace!("BufOut");
 
@@ -44,6 +46,29 @@ impl Implementation {
         self.post_call.concat()
     }
 
+    /// Defines a copy of a struct which has blanks for the objects, as they
+    /// are conveyed as arguments of their own.
+    fn generate_blanked_copy(&mut self, ident: &Ident, r#struct: &idlc_mir::StructInner) {
+        let ty = namespaced_struct(r#struct);
+        let copy = copy_of(ident);
+        let ident = EscapedIdent::new(ident);
+        let mut blanks = String::new();
+        for (place, _) in r#struct.object_slots() {
+            blanks += &format!(
+                "std::ptr::addr_of_mut!((*{copy}.as_mut_ptr()).{place}).write_bytes(0, 1);\n"
+            );
+        }
+        self.initializations.push(format!(
+            r#"
+            let mut {copy} = {MAYBE_UNINIT}::<{ty}>::uninit();
+            unsafe {{
+                std::ptr::copy_nonoverlapping({ident}, {copy}.as_mut_ptr(), 1);
+                {blanks}
+            }}
+            "#
+        ));
+    }
+
     fn add_output_object(&mut self) {
         self.args.push(format!(
             r#"{ARG} {{
@@ -67,9 +92,10 @@ impl Implementation {
     }
 
     fn generate_output_buffer(&mut self, ident: &Ident, ty: &str) {
+        let lenout = lenout_of(ident);
         let ident = EscapedIdent::new(ident);
         self.post_call.push(format!(
-            "*{ident}_lenout = unsafe {{ {ARGS}[{idx}].b.size }} / std::mem::size_of::<{ty}>();",
+            "*{lenout} = unsafe {{ {ARGS}[{idx}].b.size }} / std::mem::size_of::<{ty}>();",
             idx = self.args.len()
         ));
         self.args.push(format!(
@@ -114,16 +140,23 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
             unreachable!()
         };
         let idents = super::signature::iter_to_string(packer.bi_assignment_idents());
+        for (ident, ty) in packed_primitives.inputs_by_idents() {
+            if let Type::SmallStruct(s) = ty {
+                if s.contains_interfaces() {
+                    self.generate_blanked_copy(ident, s);
+                }
+            }
+        }
         self.initializations.push(format!(
             r#"
             {definition}
-            let mut bi = {BI_STRUCT}({idents});
+            let {BI} = {BI_STRUCT}({idents});
             "#
         ));
         self.args.push(format!(
             r#"{ARG} {{
                 bi: {INPUT_BUFFER} {{
-                    ptr: std::ptr::addr_of!(bi).cast(),
+                    ptr: std::ptr::addr_of!({BI}).cast(),
                     size: {size},
                 }}
             }}
@@ -135,44 +168,37 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         let ty: &str = &namespaced_struct(r#struct);
         let escaped_ident = EscapedIdent::new(ident);
 
-        let objects = r#struct.objects();
-        if objects.is_empty() {
+        if r#struct.contains_interfaces() {
+            let copy = copy_of(ident);
+            self.generate_blanked_copy(ident, r#struct);
             self.args.push(format!(
                 r#"{ARG} {{
                 bi: {INPUT_BUFFER} {{
-                    ptr: ({escaped_ident} as *const {ty}).cast(),
+                    ptr: {copy}.as_ptr().cast(),
                     size: std::mem::size_of::<{ty}>(),
                 }}
             }}"#
             ));
         } else {
-            self.initializations.push(format!(
-                r#"
-                let {escaped_ident} = std::mem::ManuallyDrop::new(std::cell::UnsafeCell::new(unsafe {{ std::ptr::read({escaped_ident}) }}));
-            "#
-            ));
             self.args.push(format!(
                 r#"{ARG} {{
                 bi: {INPUT_BUFFER} {{
-                    ptr: {escaped_ident}.get().cast(),
+                    ptr: ({escaped_ident} as *const {ty}).cast(),
                     size: std::mem::size_of::<{ty}>(),
                 }}
             }}"#
             ));
-            for (object, _) in objects {
-                let path = super::signature::idents_to_struct_path(&object);
-                self.args.push(format!(
-                    r#"{ARG} {{
-                o: std::mem::ManuallyDrop::new(unsafe {{
-                    let ptr = &mut (*{escaped_ident}.get()){path};
-                    let obj = std::mem::ManuallyDrop::new(std::ptr::read(ptr));
-                    std::ptr::write_volatile(ptr, std::mem::zeroed());
-
-                    std::mem::transmute_copy(&obj)
-                }})
+        }
+    }
+
+    fn visit_input_struct_objects(&mut self, ident: &Ident, ty: &idlc_mir::StructInner) {
+        let ident = EscapedIdent::new(ident);
+        for (place, _) in ty.object_slots() {
+            self.args.push(format!(
+                r#"{ARG} {{
+                o: std::mem::ManuallyDrop::new(unsafe {{ std::mem::transmute_copy(&{ident}.{place}) }})
             }}"#
-                ));
-            }
+            ));
         }
     }
 
@@ -232,20 +258,20 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         let Some(TransportBuffer { definition, size }) = packer.bo_definition() else {
             unreachable!()
         };
-        let idents = super::signature::iter_to_string(packer.bo_idents());
+        let idents = super::signature::iter_to_string(packer.bo_definition_idents());
         self.initializations.push(format!(
             r#"
                 {definition}
-                let mut bo = std::mem::MaybeUninit::<{BO_STRUCT}>::uninit();
+                let mut {BO} = std::mem::MaybeUninit::<{BO_STRUCT}>::uninit();
                 "#
         ));
         self.post_call.push(format!(
-            "let {BO_STRUCT}({idents}) = unsafe {{ bo.assume_init() }};"
+            "let {BO_STRUCT}({idents}) = unsafe {{ {BO}.assume_init() }};"
         ));
         self.args.push(format!(
             r#"{ARG} {{
                 b: {OUTPUT_BUFFER} {{
-                    ptr: std::ptr::addr_of_mut!(bo).cast(),
+                    ptr: std::ptr::addr_of_mut!({BO}).cast(),
                     size: {size},
                 }}
             }}"#
@@ -256,7 +282,7 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         let ty: &str = &namespaced_struct(r#struct);
         let escaped_ident = EscapedIdent::new(ident);
         self.initializations.push(format!(
-            "let mut {ident} = std::mem::MaybeUninit::<{ty}>::uninit();\n"
+            "let mut {escaped_ident} = std::mem::MaybeUninit::<{ty}>::uninit();\n"
         ));
         self.args.push(format!(
             r#"{ARG} {{
@@ -267,13 +293,20 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
             }}"#
         ));
 
-        let objects = r#struct.objects();
-        for (object, _) in objects {
-            let path = super::signature::idents_to_struct_path(&object);
+        if !r#struct.contains_interfaces() {
+            self.post_call.push(format!(
+                "let {escaped_ident} = unsafe {{ {escaped_ident}.assume_init() }};"
+            ));
+        }
+    }
+
+    fn visit_output_struct_objects(&mut self, ident: &Ident, ty: &idlc_mir::StructInner) {
+        let ident = EscapedIdent::new(ident);
+        for (place, _) in ty.object_slots() {
             let idx = self.args.len();
             self.post_call.push(format!(
                 r#"unsafe {{ std::ptr::write(
-                    std::ptr::addr_of_mut!((*{escaped_ident}.as_mut_ptr()){path}),
+                    std::ptr::addr_of_mut!((*{ident}.as_mut_ptr()).{place}),
                     std::mem::transmute(std::mem::ManuallyDrop::take(&mut {ARGS}[{idx}].o))
                 ); }}
             "#
@@ -281,9 +314,8 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
 
             self.add_output_object();
         }
-        self.post_call.push(format!(
-            "let {escaped_ident} = unsafe {{ {escaped_ident}.assume_init() }};"
-        ));
+        self.post_call
+            .push(format!("let {ident} = unsafe {{ {ident}.assume_init() }};"));
     }
 
     fn visit_output_small_struct(&mut self, ident: &Ident, ty: &idlc_mir::StructInner) {
diff --git a/idlc_codegen_rust/src/interface/functions/invoke.rs b/idlc_codegen_rust/src/interface/functions/invoke.rs
index 11ff7cf..a4c375d 100644
--- a/idlc_codegen_rust/src/interface/functions/invoke.rs
+++ b/idlc_codegen_rust/src/interface/functions/invoke.rs
@@ -5,18 +5,21 @@ use idlc_mir::{Ident, StructInner};
 
 use crate::interface::mink_primitives::GENERIC_ERROR;
 use crate::{
-    interface::variable_names::invoke::{ARGS, BI_STRUCT, BO_STRUCT},
+    interface::variable_names::invoke::{ARGS, BI_STRUCT, BO_STRUCT, SLOT},
     types::change_primitive,
 };
 
 use crate::{ident::EscapedIdent, types::namespaced_struct};
 
-use super::serialization::TransportBuffer;
+use super::serialization::{TransportBuffer, MAYBE_UNINIT};
+use super::signature::lenout_of;
 
 #[derive(Debug, Default, Clone)]
 pub struct Invoke {
     pre: Vec<String>,
     post: Vec<String>,
+    /// Outputs which are written when the objects have been taken out of them.
+    write_back: Vec<String>,
 
     idx: usize,
 }
@@ -34,7 +37,7 @@ impl Invoke {
     }
 
     pub fn post(&self) -> String {
-        self.post.concat()
+        self.post.concat() + &self.write_back.concat()
     }
 }
 
@@ -57,22 +60,25 @@ impl Invoke {
         }};"#));
     }
 
-    fn generate_for_output_buffer(&mut self, ident: EscapedIdent, ty: &str) {
+    fn generate_for_output_buffer(&mut self, ident: &Ident, ty: &str) {
         let idx = self.idx();
+        let lenout = lenout_of(ident);
+        let ident = EscapedIdent::new(ident);
         self.pre.push(format!(
-            r#"let {ident}_orig = {ARGS}[{idx}].b.size;
-            let {ident}_lenout = &mut *std::ptr::addr_of_mut!({ARGS}[{idx}].b.size);"#
-        ));
-        self.pre.push(format!(
-        r#"let {ident} = if {ident}_orig == 0 {{
+            r#"let {ident} = if {ARGS}[{idx}].b.size == 0 {{
             &mut []
         }} else {{
-            std::slice::from_raw_parts_mut({ARGS}[{idx}].b.ptr.cast::<{ty}>(), {ident}_orig / std::mem::size_of::<{ty}>())
-        }};"#));
+            std::slice::from_raw_parts_mut({ARGS}[{idx}].b.ptr.cast::<{ty}>(), {ARGS}[{idx}].b.size / std::mem::size_of::<{ty}>())
+        }};
+        let mut {lenout}: usize = {ident}.len();
+        let {lenout} = &mut {lenout};"#
+        ));
         self.post.push(format!(
             r#"
-            *{ident}_lenout = {ident}_lenout.saturating_mul(std::mem::size_of::<{ty}>());
-            assert!(*{ident}_lenout <= {ident}_orig);
+            if *{lenout} > {ARGS}[{idx}].b.size / std::mem::size_of::<{ty}>() {{
+                return std::mem::transmute({GENERIC_ERROR}::SIZE_OUT);
+            }}
+            {ARGS}[{idx}].b.size = *{lenout} * std::mem::size_of::<{ty}>();
             "#
         ));
     }
@@ -121,7 +127,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
             "#,
         ));
         self.pre.push(format!(
-            "let {BI_STRUCT}({idents}) = std::ptr::read(args[0].bi.ptr.cast::<{BI_STRUCT}>());"
+            "let {BI_STRUCT}({idents}) = std::ptr::read({ARGS}[{idx}].bi.ptr.cast::<{BI_STRUCT}>());"
         ));
         self.pre.push(packer.post_bi_assignments());
     }
@@ -136,29 +142,31 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         }}"#
         ));
 
-        let objects = r#struct.objects();
-        if objects.is_empty() {
+        if r#struct.contains_interfaces() {
             self.pre.push(format!(
-                "let {ident} = &*{ARGS}[{idx}].bi.ptr.cast::<{ty}>();"
+                "let mut {ident} = std::ptr::read({ARGS}[{idx}].bi.ptr.cast::<{MAYBE_UNINIT}<{ty}>>());"
             ));
         } else {
             self.pre.push(format!(
-                "let mut {ident} = std::mem::ManuallyDrop::new(std::ptr::read({ARGS}[{idx}].bi.ptr.cast::<{ty}>()));"
+                "let {ident} = &*{ARGS}[{idx}].bi.ptr.cast::<{ty}>();"
             ));
-            for (object, _) in objects {
-                let path = super::signature::idents_to_struct_path(&object);
-                let idx = self.idx();
-                self.pre.push(format!(
-                    "std::ptr::write(&mut {ident}{path}, std::mem::transmute_copy(&{ARGS}[{idx}].o));"
-                ));
-            }
-            self.pre.push(format!("let {ident} = &{ident};"))
         }
     }
     fn visit_input_small_struct(&mut self, ident: &Ident, ty: &StructInner) {
         self.visit_input_big_struct(ident, ty);
     }
 
+    fn visit_input_struct_objects(&mut self, ident: &Ident, ty: &StructInner) {
+        let ident = EscapedIdent::new(ident);
+        for (place, _) in ty.object_slots() {
+            let idx = self.idx();
+            self.pre.push(format!(
+                "std::ptr::write(std::ptr::addr_of_mut!((*{ident}.as_mut_ptr()).{place}), std::mem::transmute_copy(&{ARGS}[{idx}].o));"
+            ));
+        }
+        self.pre.push(format!("let {ident} = &*{ident}.as_ptr();"));
+    }
+
     fn visit_input_object(&mut self, ident: &Ident, _: Option<&str>) {
         let idx = self.idx();
         let ident = EscapedIdent::new(ident);
@@ -179,11 +187,11 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
     }
 
     fn visit_output_primitive_buffer(&mut self, ident: &Ident, ty: idlc_mir::Primitive) {
-        self.generate_for_output_buffer(EscapedIdent::new(ident), change_primitive(ty));
+        self.generate_for_output_buffer(ident, change_primitive(ty));
     }
 
     fn visit_output_struct_buffer(&mut self, ident: &Ident, ty: &StructInner) {
-        self.generate_for_output_buffer(EscapedIdent::new(ident), &namespaced_struct(ty));
+        self.generate_for_output_buffer(ident, &namespaced_struct(ty));
     }
 
     fn visit_output_big_struct(&mut self, ident: &Ident, r#struct: &StructInner) {
@@ -196,28 +204,32 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         }}"#
         ));
 
-        let objects = r#struct.objects();
-        if objects.is_empty() {
+        if r#struct.contains_interfaces() {
+            self.write_back.push(format!(
+                "std::ptr::write({ARGS}[{idx}].b.ptr.cast::<{MAYBE_UNINIT}<{ty}>>(), {ident});"
+            ));
+        } else {
             self.post
                 .push(format!("*{ARGS}[{idx}].b.ptr.cast::<{ty}>() = {ident};\n"));
-        } else {
-            let struct_idx = idx;
-            self.post.push(format!(
-                "let mut {ident} = std::mem::ManuallyDrop::new({ident});"
-            ));
-            for (object, _) in objects {
-                let idx = self.idx();
-                let path = super::signature::idents_to_struct_path(&object);
-                self.post.push(format!("{ARGS}[{idx}].o = std::mem::ManuallyDrop::new(std::mem::transmute({ident}{path}.take()));"));
-                self.post.push(format!(
-                    "std::ptr::write(std::ptr::addr_of_mut!({ident}{path}), std::mem::zeroed());"
-                ));
-            }
+        }
+    }
+
+    fn visit_output_struct_objects(&mut self, ident: &Ident, ty: &StructInner) {
+        let ident = EscapedIdent::new(ident);
+        self.post
+            .push(format!("let mut {ident} = {MAYBE_UNINIT}::new({ident});"));
+        for (place, _) in ty.object_slots() {
+            let idx = self.idx();
             self.post.push(format!(
-                "std::ptr::write({ARGS}[{struct_idx}].b.ptr.cast::<{ty}>(), std::mem::transmute_copy(&{ident}));"
+                r#"
+                let {SLOT} = std::ptr::addr_of_mut!((*{ident}.as_mut_ptr()).{place});
+                {ARGS}[{idx}].o = std::mem::ManuallyDrop::new(std::mem::transmute(std::ptr::read({SLOT})));
+                {SLOT}.write_bytes(0, 1);
+                "#
             ));
         }
     }
+
     fn visit_output_small_struct(&mut self, ident: &Ident, ty: &StructInner) {
         self.visit_output_big_struct(ident, ty);
     }
@@ -254,7 +266,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
             "#,
         ));
         let idents = super::signature::iter_to_string(packer.bo_idents());
-        self.post.push(format!(
+        self.write_back.push(format!(
             r#"
             std::ptr::write({ARGS}[{idx}].b.ptr.cast::<{BO_STRUCT}>(), {BO_STRUCT}({idents}));
             "#
@@ -300,6 +312,12 @@ pub fn emit(
         counts.input_objects,
         counts.output_objects,
     );
+    // There need not be a pointer when there are no arguments.
+    let slice = if n_args > 0 {
+        format!("let {ARGS} = std::slice::from_raw_parts_mut({ARGS}, {n_args});")
+    } else {
+        String::new()
+    };
     let params = Invoke::new(function);
     let pre = params.pre();
     let post = params.post();
@@ -313,11 +331,11 @@ pub fn emit(
         if {COUNTS} != {PACK_COUNTS}{counts:?} {{
             return std::mem::transmute({GENERIC_ERROR}::GENERIC)
         }}
-        let args = std::slice::from_raw_parts_mut({ARGS}, {n_args});
+        {slice}
 
         {pre}
 
-        match (*{CONTEXT}).inner.lock().map_err(|_| std::mem::transmute({GENERIC_ERROR}::INVALID)).and_then(|mut cx| cx.r#{ident}({params})) {{
+        match (*{CONTEXT}).inner.lock().map_err(|_| std::mem::transmute({GENERIC_ERROR}::INVALID)).and_then(|mut {CONTEXT}| {CONTEXT}.r#{ident}({params})) {{
             Ok(({returns})) => {{
                 {post}
                 {OK}
diff --git a/idlc_codegen_rust/src/interface/functions/serialization.rs b/idlc_codegen_rust/src/interface/functions/serialization.rs
index b2028fc..a9ff557 100644
--- a/idlc_codegen_rust/src/interface/functions/serialization.rs
+++ b/idlc_codegen_rust/src/interface/functions/serialization.rs
@@ -7,6 +7,7 @@ use idlc_codegen::serialization::Type;
 
 use crate::{
     ident::EscapedIdent,
+    interface::variable_names::invoke::{BI_STRUCT, BO_STRUCT},
     types::{change_primitive, namespaced_struct},
 };
 
@@ -16,6 +17,23 @@ pub struct TransportBuffer {
     pub size: usize,
 }
 
+/// Holds the bytes of structs which have blanks where they have objects.
+pub const MAYBE_UNINIT: &str = "std::mem::MaybeUninit";
+
+/// Name of the copy of a struct whose objects are blanked.
+pub fn copy_of(ident: &idlc_mir::Ident) -> String {
+    format!("_{ident}_cpy")
+}
+
+/// Pattern of a member of a bundle; objects are yet to be put in those of [`MAYBE_UNINIT`].
+fn binding(ident: &idlc_mir::Ident, ty: &Type) -> String {
+    let ident = EscapedIdent::new(ident);
+    match ty {
+        Type::SmallStruct(s) if s.contains_interfaces() => format!("mut {ident}"),
+        _ => ident.to_string(),
+    }
+}
+
 #[derive(Debug)]
 pub struct PackedPrimitives<'a>(&'a idlc_codegen::serialization::PackedPrimitives);
 
@@ -26,20 +44,21 @@ impl<'a> PackedPrimitives<'a> {
     }
 
     pub fn bi_definition(&self) -> Option<TransportBuffer> {
-        Self::generate_struct(self.0.input_types(), "BI", self.0.packed_input_size())
+        Self::generate_struct(self.0.input_types(), BI_STRUCT, self.0.packed_input_size())
     }
 
     pub fn bi_definition_idents(&self) -> impl ExactSizeIterator<Item = String> + '_ {
         self.0
             .inputs_by_idents()
-            .map(|(ident, _)| EscapedIdent::new(ident).to_string())
+            .map(|(ident, ty)| binding(ident, ty))
     }
 
     pub fn bi_assignment_idents(&self) -> impl ExactSizeIterator<Item = String> + '_ {
-        self.0.inputs_by_idents().map(|(ident, ty)| {
-            let ident = EscapedIdent::new(ident);
+        self.0.inputs_by_idents().map(|(name, ty)| {
+            let ident = EscapedIdent::new(name);
             match ty {
                 Type::Primitive(_) => ident.to_string(),
+                Type::SmallStruct(s) if s.contains_interfaces() => copy_of(name),
                 Type::SmallStruct(_) => format!("*{ident}"),
             }
         })
@@ -48,7 +67,7 @@ impl<'a> PackedPrimitives<'a> {
     pub fn post_bi_assignments(&self) -> String {
         let mut assignments = String::new();
         self.0.inputs_by_idents().for_each(|(ident, ty)| {
-            if matches!(ty, Type::SmallStruct(_)) {
+            if matches!(ty, Type::SmallStruct(s) if !s.contains_interfaces()) {
                 let ident = EscapedIdent::new(ident);
                 assignments += &format!(r"let {ident} = &{ident};");
             }
@@ -58,7 +77,17 @@ impl<'a> PackedPrimitives<'a> {
     }
 
     pub fn bo_definition(&self) -> Option<TransportBuffer> {
-        Self::generate_struct(self.0.output_types(), "BO", self.0.packed_output_size())
+        Self::generate_struct(
+            self.0.output_types(),
+            BO_STRUCT,
+            self.0.packed_output_size(),
+        )
+    }
+
+    pub fn bo_definition_idents(&self) -> impl ExactSizeIterator<Item = String> + '_ {
+        self.0
+            .outputs_by_idents()
+            .map(|(ident, ty)| binding(ident, ty))
     }
 
     pub fn bo_idents(&self) -> impl ExactSizeIterator<Item = String> + '_ {
@@ -79,12 +108,14 @@ impl<'a> PackedPrimitives<'a> {
 
         let fields = super::signature::iter_to_string(types.map(|ty| match ty {
             &Type::Primitive(p) => Cow::Borrowed(change_primitive(p)),
+            Type::SmallStruct(s) if s.contains_interfaces() => {
+                Cow::Owned(format!("{MAYBE_UNINIT}<{}>", namespaced_struct(s)))
+            }
             Type::SmallStruct(s) => Cow::Owned(namespaced_struct(s)),
         }));
         let definition = format!(
             r#"
         #[repr(C, packed)]
-        #[derive(Clone, Copy)]
         struct {ident}({fields});
         "#
         );
diff --git a/idlc_codegen_rust/src/interface/functions/signature.rs b/idlc_codegen_rust/src/interface/functions/signature.rs
index f1c35d1..d10b422 100644
--- a/idlc_codegen_rust/src/interface/functions/signature.rs
+++ b/idlc_codegen_rust/src/interface/functions/signature.rs
@@ -29,10 +29,9 @@ pub fn iter_to_string(iter: impl Iterator<Item = impl AsRef<str>>) -> String {
     acc
 }
 
-pub fn idents_to_struct_path(objects: &[&Ident]) -> String {
-    objects
-        .iter()
-        .fold(String::new(), |acc, x| acc + "." + x.as_ref())
+/// Name of the number of elements put in an output buffer.
+pub fn lenout_of(ident: &Ident) -> Ident {
+    Ident::new_without_span(format!("_{ident}_lenout"))
 }
 
 impl Signature {
@@ -121,18 +120,12 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
 
     fn visit_output_primitive_buffer(&mut self, ident: &Ident, ty: Primitive) {
         self.push_inputs(ident, format!("&mut [{}]", change_primitive(ty)));
-        self.push_inputs(
-            &idlc_mir::Ident::new_without_span(format!("{ident}_lenout")),
-            "&mut usize",
-        );
+        self.push_inputs(&lenout_of(ident), "&mut usize");
     }
 
     fn visit_output_struct_buffer(&mut self, ident: &Ident, ty: &StructInner) {
         self.push_inputs(ident, format!("&mut [{}]", namespaced_struct(ty)));
-        self.push_inputs(
-            &idlc_mir::Ident::new_without_span(format!("{ident}_lenout")),
-            "&mut usize",
-        );
+        self.push_inputs(&lenout_of(ident), "&mut usize");
     }
 
     fn visit_output_primitive(&mut self, ident: &Ident, ty: Primitive) {
diff --git a/idlc_codegen_rust/src/interface/mod.rs b/idlc_codegen_rust/src/interface/mod.rs
index ddfcd43..03e5d5d 100644
--- a/idlc_codegen_rust/src/interface/mod.rs
+++ b/idlc_codegen_rust/src/interface/mod.rs
@@ -136,13 +136,13 @@ pub fn emit(interface: &Interface) -> String {
     unsafe extern "C" fn invoke({h}: {CONTEXT}, {op}: {OP_ID}, {args}: *mut {ARG}, {counts}: {COUNTS}) -> i32 {{
         debug_assert_eq!({h}.align_offset(std::mem::align_of::<{wrapper}>()), 0);
         let {cx} = {h}.cast::<{wrapper}>();
-        match op {{
+        match {op} {{
             {invoke_arms}
             {OP_RELEASE} => {{
-                {WRAPPER}::release(cx)
+                {WRAPPER}::release({cx})
             }},
             {OP_RETAIN} => {{
-                {WRAPPER}::retain(cx)
+                {WRAPPER}::retain({cx})
             }},
             _ => {GENERIC_ERROR}::INVALID.into(),
         }}
diff --git a/idlc_codegen_rust/src/interface/variable_names.rs b/idlc_codegen_rust/src/interface/variable_names.rs
index 0994bb3..24de575 100644
--- a/idlc_codegen_rust/src/interface/variable_names.rs
+++ b/idlc_codegen_rust/src/interface/variable_names.rs
@@ -1,14 +1,19 @@
 // Copyright (c) 2024, Qualcomm Innovation Center, Inc. All rights reserved.
 // SPDX-License-Identifier: BSD-3-Clause
 
+/// Names start with an underscore, which no identifier of an IDL does.
 pub(super) mod invoke {
-    pub const HANDLE: &str = "h";
-    pub const OP_ID: &str = "op";
-    pub const ARGS: &str = "args";
-    pub const COUNTS: &str = "counts";
+    pub const HANDLE: &str = "_h";
+    pub const OP_ID: &str = "_op";
+    pub const ARGS: &str = "_args";
+    pub const COUNTS: &str = "_counts";
     pub const MARKER: &str = "MARKER";
-    pub const CONTEXT: &str = "cx";
+    pub const CONTEXT: &str = "_cx";
 
-    pub const BI_STRUCT: &str = "BI";
-    pub const BO_STRUCT: &str = "BO";
+    pub const BI: &str = "_bi";
+    pub const BO: &str = "_bo";
+    pub const SLOT: &str = "_slot";
+
+    pub const BI_STRUCT: &str = "_BI";
+    pub const BO_STRUCT: &str = "_BO";
 }
diff --git a/idlc_mir/src/mir.rs b/idlc_mir/src/mir.rs
index af3368a..47e7dfc 100644
--- a/idlc_mir/src/mir.rs
+++ b/idlc_mir/src/mir.rs
@@ -205,6 +205,19 @@ impl StructInner {
         self.fields.iter().fold(0, |acc, e| acc + e.size())
     }
 
+    /// Alignment of the struct on the targets, where objects are pairs of pointers.
+    pub fn alignment(&self) -> usize {
+        self.fields
+            .iter()
+            .map(|field| match &field.val.0 {
+                Type::Primitive(p) => p.size(),
+                Type::Struct(s) => s.as_ref().alignment(),
+                _ => Primitive::Uint64.size(),
+            })
+            .max()
+            .unwrap_or(1)
+    }
+
     /// Paths of the fields which are objects, breadth first.
     ///
     /// Elements of arrays aren't told apart, see [`Self::object_slots`].
-- 
2.43.0


From 4ced3ce7fe6a1ccf3070bedb6b30e706caebffd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:13 +0000
Subject: [PATCH 13/15] fix: Java proxies and skeletons agree with the wire
 format and compile

Nested structs and array fields are encoded element by element, buffers of
any element type are decoded whole and sized in elements on both sides,
skipped outputs do not disturb the others in a bundle, arguments of the
wrong size are refused instead of silently dropped, and locals no longer
clash with parameters.
---
 idlc_codegen_java/src/generator.rs            |  17 +-
 .../src/interface/functions/implementation.rs | 154 ++++---------
 .../src/interface/functions/invoke.rs         | 214 ++++++------------
 .../src/interface/functions/serialization.rs  |  90 +++-----
 .../src/interface/functions/signature.rs      |  29 +--
 idlc_codegen_java/src/types.rs                |  92 ++++++--
 6 files changed, 230 insertions(+), 366 deletions(-)

diff --git a/idlc_codegen_java/src/generator.rs b/idlc_codegen_java/src/generator.rs
index 15d188a..7a45955 100644
--- a/idlc_codegen_java/src/generator.rs
+++ b/idlc_codegen_java/src/generator.rs
@@ -28,17 +28,20 @@ package com.qualcomm.qti.mink;
         interfaces.insert(base.clone(), prologue.to_owned());
 
         let input_name = &mir.tag.file_stem().unwrap().to_str().unwrap();
-        let mut includes = String::new();
+        let mut includes: Vec<String> = Vec::new();
         for node in &mir.nodes {
             if let Node::Include(i) = node.as_ref() {
-                let inc_name = i.display().to_string().replace(".idl", "");
-                includes.push_str(&format!("{inc_name},"));
+                let inc_name = i.file_stem().unwrap().to_str().unwrap().to_string();
+                if !includes.contains(&inc_name) {
+                    includes.push(inc_name);
+                }
             }
         }
-        if !includes.is_empty() {
-            includes.pop();
-            includes = format!("extends {includes}");
-        }
+        let includes = if includes.is_empty() {
+            String::new()
+        } else {
+            format!("extends {}", includes.join(","))
+        };
         interfaces.get_mut(&base).unwrap().push_str(&format!(
             r#"public interface {input_name} {includes} {{
     "#
diff --git a/idlc_codegen_java/src/interface/functions/implementation.rs b/idlc_codegen_java/src/interface/functions/implementation.rs
index 58af14d..619dbe1 100644
--- a/idlc_codegen_java/src/interface/functions/implementation.rs
+++ b/idlc_codegen_java/src/interface/functions/implementation.rs
@@ -4,9 +4,9 @@
 use idlc_mir::Ident;
 
 use crate::interface::mink_primitives::{
-    BI, BO, BUNDLE_IN, BUNDLE_OUT, BYTE_BUFFER, BYTE_ORDER, OI, OO, OP_ID,
+    BI, BO, BUNDLE_IN, BUNDLE_OUT, BYTE_BUFFER, BYTE_ORDER, IMINK_OBJECT, OI, OO, OP_ID,
 };
-use crate::types::{capitalize_first_letter, change_primitive, get_struct_pair};
+use crate::types::{capitalize_first_letter, change_primitive, get_struct, put_struct, typed_view};
 
 use super::serialization::TransportBuffer;
 
@@ -14,8 +14,6 @@ use super::serialization::TransportBuffer;
 pub struct Implementation {
     initializations: Vec<String>,
     post_call: Vec<String>,
-    obj_arr_in: bool,
-    obj_arr_out: bool,
 
     bi_idx: usize,
     bo_idx: usize,
@@ -89,17 +87,12 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         let bi_idx = self.bi_idx();
         let name = format!("{}_val", ident);
         let sz = ty.size();
-        let ty = capitalize_first_letter(change_primitive(ty));
-        let to_buffer = if !ty.is_empty() {
-            format!("as{ty}Buffer().")
-        } else {
-            "".to_string()
-        };
+        let view = typed_view(&format!("{ident}_buf"), ty);
         self.initializations.push(format!(
             r#"if({name} != null) {{
-                {BYTE_BUFFER} buffer_{name} = {BYTE_BUFFER}.allocate({name}.length*{sz}).order({BYTE_ORDER});
-                buffer_{name}.{to_buffer}put({name});
-                {BI}[{bi_idx}] = buffer_{name}.array();
+                {BYTE_BUFFER} {ident}_buf = {BYTE_BUFFER}.allocate({name}.length*{sz}).order({BYTE_ORDER});
+                {view}.put({name});
+                {BI}[{bi_idx}] = {ident}_buf.array();
             }}
             "#
         ));
@@ -118,46 +111,27 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         let bi_idx = self.bi_idx();
         let name = format!("{}_val", ident);
         let sz = ty.size();
-        let mut field_idents = Vec::new();
-        let mut buffer_in = String::new();
-
-        get_struct_pair(ty, &mut field_idents, "".to_string());
-        for (field_ident, field_ty) in field_idents {
-            let mut capitalized_ty = String::new();
-            if let idlc_mir::Type::Primitive(p) = field_ty {
-                capitalized_ty = capitalize_first_letter(change_primitive(p));
-            }
-            buffer_in.push_str(&format!(
-                r#"buffer_{name}.put{capitalized_ty}(i.{field_ident});
-                    "#
-            ));
-        }
+        let element = put_struct(ty, &format!("{name}[i]"), &format!("{ident}_buf"));
 
         self.initializations.push(format!(
             r#"if({name} != null) {{
-                {BYTE_BUFFER} buffer_{name} = {BYTE_BUFFER}.allocate({name}.length*{sz}).order({BYTE_ORDER});
-                for ({0} i : {name}) {{
-                    {buffer_in}
+                {BYTE_BUFFER} {ident}_buf = {BYTE_BUFFER}.allocate({name}.length*{sz}).order({BYTE_ORDER});
+                for (int i=0; i<{name}.length; i++) {{
+                    {element}
                 }}
-                {BI}[{bi_idx}] = buffer_{name}.array();
+                {BI}[{bi_idx}] = {ident}_buf.array();
             }}
-            "#,
-            ty.ident
+            "#
         ));
     }
 
-    fn visit_input_object_array(
-        &mut self,
-        ident: &Ident,
-        _ty: Option<&str>,
-        _cnt: idlc_mir::Count,
-    ) {
-        let _io_idx = self.io_idx();
+    fn visit_input_object_array(&mut self, ident: &Ident, _ty: Option<&str>, cnt: idlc_mir::Count) {
+        let io_idx = self.io_idx;
+        self.io_idx += usize::from(cnt.get());
         let name = format!("{}_val", ident);
-        self.obj_arr_in = true;
         self.initializations.push(format!(
-            r#" for (int i=0; i<{name}.length; i++) {{
-                {OI}[i] = {name}[i];
+            r#"for (int i=0; i<{name}.length; i++) {{
+                {OI}[{io_idx} + i] = {name}[i];
             }}
             "#,
         ));
@@ -196,26 +170,13 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
 
     fn visit_input_big_struct(&mut self, ident: &Ident, ty: &idlc_mir::StructInner) {
         let bi_idx = self.bi_idx();
-        let name = format!("{}_val", ident);
         let sz = ty.size();
-        let mut fields = String::new();
-        let mut field_idents = Vec::new();
-        get_struct_pair(ty, &mut field_idents, "".to_string());
-        for (field_ident, field_ty) in field_idents {
-            let mut capitalized_ty = String::new();
-            if let idlc_mir::Type::Primitive(p) = field_ty {
-                capitalized_ty = capitalize_first_letter(change_primitive(p));
-            }
-            fields.push_str(&format!(
-                r#"buffer_{name}.put{capitalized_ty}({name}.{field_ident});
-            "#
-            ));
-        }
+        let fields = put_struct(ty, &format!("{ident}_val"), &format!("{ident}_buf"));
 
         self.initializations.push(format!(
-            r#"{BYTE_BUFFER} buffer_{name} = {BYTE_BUFFER}.allocate({sz}).order({BYTE_ORDER});
+            r#"{BYTE_BUFFER} {ident}_buf = {BYTE_BUFFER}.allocate({sz}).order({BYTE_ORDER});
             {fields}
-            {BI}[{bi_idx}] = buffer_{name}.array();
+            {BI}[{bi_idx}] = {ident}_buf.array();
             "#
         ));
     }
@@ -237,22 +198,18 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         let bo_sz_idx = self.bo_sz_idx();
         let name = format!("{}_ptr", ident);
         let sz = ty.size();
+        let view = typed_view(&format!("{ident}_buf"), ty);
         let ty = change_primitive(ty);
-        let capitalized_ty = capitalize_first_letter(ty);
-        let to_buffer = if !capitalized_ty.is_empty() {
-            format!("as{capitalized_ty}Buffer().")
-        } else {
-            "".to_string()
-        };
         self.initializations.push(format!(
             r#"boSizes[{bo_sz_idx}] = {ident}_len*{sz};
             "#,
         ));
         self.post_call.push(format!(
             r#"if({name} != null) {{
-                int {ident}_lenout = Math.min({BO}[{bo_idx}].length/{sz}, {ident}_len);
+                {BYTE_BUFFER} {ident}_buf = {BYTE_BUFFER}.wrap({BO}[{bo_idx}] == null ? new byte[0] : {BO}[{bo_idx}]).order({BYTE_ORDER});
+                int {ident}_lenout = Math.min({ident}_buf.remaining()/{sz}, {ident}_len);
                 {name}[0] = new {ty}[{ident}_lenout];
-                {BYTE_BUFFER}.wrap({BO}[{bo_idx}]).order({BYTE_ORDER}).{to_buffer}get({name}[0], 0, {ident}_lenout);
+                {view}.get({name}[0], 0, {ident}_lenout);
             }}
             "#,
         ));
@@ -279,22 +236,8 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         let bo_sz_idx = self.bo_sz_idx();
         let name = format!("{}_ptr", ident);
         let sz = ty.size();
-
-        let mut field_idents = Vec::new();
-        let mut buffer_in = String::new();
-
-        get_struct_pair(ty, &mut field_idents, "".to_string());
+        let element = get_struct(ty, &format!("{name}[0][i]"), &format!("{ident}_buf"));
         let ty = ty.ident.to_string();
-        for (field_ident, field_ty) in field_idents {
-            let mut capitalized_ty = String::new();
-            if let idlc_mir::Type::Primitive(p) = field_ty {
-                capitalized_ty = capitalize_first_letter(change_primitive(p));
-            }
-            buffer_in.push_str(&format!(
-                r#"{name}[0][i].{field_ident} = buffer_{name}.get{capitalized_ty}();
-                    "#
-            ));
-        }
 
         self.initializations.push(format!(
             r#"boSizes[{bo_sz_idx}] = {ident}_len*{sz};
@@ -302,11 +245,11 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         ));
         self.post_call.push(format!(
             r#"if({name} != null) {{
-                int {ident}_lenout = Math.min({BO}[{bo_idx}].length/{sz}, {ident}_len);
+                {BYTE_BUFFER} {ident}_buf = {BYTE_BUFFER}.wrap({BO}[{bo_idx}] == null ? new byte[0] : {BO}[{bo_idx}]).order({BYTE_ORDER});
+                int {ident}_lenout = Math.min({ident}_buf.remaining()/{sz}, {ident}_len);
                 {name}[0] = new {ty}[{ident}_lenout];
-                {BYTE_BUFFER} buffer_{name} = {BYTE_BUFFER}.wrap({BO}[{bo_idx}]).order({BYTE_ORDER});
-                for (int i=0;i<{ident}_len;i++) {{
-                    {buffer_in}
+                for (int i=0;i<{ident}_lenout;i++) {{
+                    {element}
                 }}
             }}
             "#,
@@ -319,12 +262,15 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         _ty: Option<&str>,
         cnt: idlc_mir::Count,
     ) {
+        let oo_idx = self.oo_idx;
+        self.oo_idx += usize::from(cnt.get());
         let name = format!("{}_ptr", ident);
-        self.obj_arr_out = true;
         self.post_call.push(format!(
-            r#"
-            for (int i=0;i<{cnt};i++) {{
-                {name}[0][i] = {OO}[i];
+            r#"if({name} != null) {{
+                if ({name}[0] == null) {name}[0] = new {IMINK_OBJECT}[{cnt}];
+                for (int i=0;i<{cnt};i++) {{
+                    {name}[0][i] = {OO}[{oo_idx} + i];
+                }}
             }}
             "#,
         ));
@@ -341,10 +287,8 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
             "#,
         ));
         self.post_call.push(format!(
-            r#"{BYTE_BUFFER} {BUNDLE_OUT};
-            {BUNDLE_OUT} = {BYTE_BUFFER}.wrap({BO}[{bo_idx}]).order({BYTE_ORDER});
-            if({name} != null) {{
-                {name}[0] = {BUNDLE_OUT}.get{ty}();
+            r#"if({name} != null) {{
+                {name}[0] = {BYTE_BUFFER}.wrap({BO}[{bo_idx}]).order({BYTE_ORDER}).get{ty}();
             }}
             "#,
         ));
@@ -376,26 +320,14 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         let bo_sz_idx = self.bo_sz_idx();
         let name = format!("{}_ptr", ident);
         let sz = ty.size();
-        let mut fields = String::new();
-        let mut field_idents = Vec::new();
-        get_struct_pair(ty, &mut field_idents, "".to_string());
-        for (field_ident, field_ty) in field_idents {
-            let mut capitalized_ty = String::new();
-            if let idlc_mir::Type::Primitive(p) = field_ty {
-                capitalized_ty = capitalize_first_letter(change_primitive(p));
-            }
-            fields.push_str(&format!(
-                r#"{name}[0].{field_ident} = {BUNDLE_OUT}.get{capitalized_ty}();
-                "#
-            ));
-        }
+        let fields = get_struct(ty, &format!("{name}[0]"), &format!("{ident}_buf"));
         self.initializations.push(format!(
             r#"boSizes[{bo_sz_idx}] = {sz};
             "#,
         ));
         self.post_call.push(format!(
-            r#"{BYTE_BUFFER} {BUNDLE_OUT} = {BYTE_BUFFER}.wrap({BO}[{bo_idx}]).order({BYTE_ORDER});
-            if ({name} != null) {{
+            r#"if ({name} != null) {{
+                {BYTE_BUFFER} {ident}_buf = {BYTE_BUFFER}.wrap({BO}[{bo_idx}]).order({BYTE_ORDER});
                 {fields}
             }}
             "#,
@@ -465,8 +397,6 @@ pub fn emit(
             counts.input_objects
         ));
         "oi".to_string()
-    } else if implementation.obj_arr_in {
-        "oi".to_string()
     } else {
         "null".to_string()
     };
@@ -477,8 +407,6 @@ pub fn emit(
             counts.output_objects
         ));
         "oo".to_string()
-    } else if implementation.obj_arr_out {
-        "oo".to_string()
     } else {
         "null".to_string()
     };
diff --git a/idlc_codegen_java/src/interface/functions/invoke.rs b/idlc_codegen_java/src/interface/functions/invoke.rs
index c8bdd39..f623395 100644
--- a/idlc_codegen_java/src/interface/functions/invoke.rs
+++ b/idlc_codegen_java/src/interface/functions/invoke.rs
@@ -4,7 +4,7 @@
 use crate::interface::mink_primitives::{
     BI, BO, BUNDLE_IN, BUNDLE_OUT, BYTE_BUFFER, BYTE_ORDER, IMINK_OBJECT, OI, OO, OP_ID,
 };
-use crate::types::{capitalize_first_letter, change_primitive, get_struct_pair};
+use crate::types::{capitalize_first_letter, change_primitive, get_struct, put_struct, typed_view};
 
 use super::serialization::TransportBuffer;
 
@@ -79,43 +79,41 @@ impl Invoke {
     }
 }
 
+/// Statement that refuses an invocation.
+fn refuse_if(condition: &str) -> String {
+    format!(
+        r#"if ({condition}) {{
+                        throw new InvokeException(IMinkObject.ERROR_INVALID);
+                    }}"#
+    )
+}
+
 impl idlc_codegen::functions::ParameterVisitor for Invoke {
     fn visit_input_primitive_buffer(&mut self, ident: &idlc_mir::Ident, ty: idlc_mir::Primitive) {
         let bi_idx = self.bi_idx();
+        let sz = ty.size();
+        let view = typed_view(&format!("{ident}_buf"), ty);
         let ty = change_primitive(ty);
-        let capitalized_ty = capitalize_first_letter(ty);
-        let to_buffer = if !capitalized_ty.is_empty() {
-            format!("as{capitalized_ty}Buffer().")
-        } else {
-            "".to_string()
-        };
 
         self.pre.push(format!(
-            r#"{ty}[] {ident} = {BYTE_BUFFER}.wrap({BI}[{bi_idx}]).order({BYTE_ORDER}).{to_buffer}array();
+            r#"{BYTE_BUFFER} {ident}_buf = {BYTE_BUFFER}.wrap({BI}[{bi_idx}] == null ? new byte[0] : {BI}[{bi_idx}]).order({BYTE_ORDER});
+                    {ty}[] {ident}_val = new {ty}[{ident}_buf.remaining()/{sz}];
+                    {view}.get({ident}_val);
                     "#
         ));
     }
 
     fn visit_input_struct_buffer(&mut self, ident: &idlc_mir::Ident, ty: &idlc_mir::StructInner) {
         let bi_idx = self.bi_idx();
-        let mut fields = String::new();
-        let mut field_idents = Vec::new();
-        get_struct_pair(ty, &mut field_idents, "".to_string());
-        for (field_ident, field_ty) in field_idents {
-            let mut capitalized_ty = String::new();
-            if let idlc_mir::Type::Primitive(p) = field_ty {
-                capitalized_ty = capitalize_first_letter(change_primitive(p));
-            }
-            fields.push_str(&format!(
-                r#"{ident}[0].{field_ident}={BUNDLE_IN}{bi_idx}.get{capitalized_ty}();
-                    "#
-            ));
-        }
+        let sz = ty.size();
+        let element = get_struct(ty, &format!("{ident}_val[i]"), &format!("{ident}_buf"));
         let ty = ty.ident.to_string();
         self.pre.push(format!(
-            r#"{ty}[] {ident} = new {ty}[1];
-                    {BYTE_BUFFER} {BUNDLE_IN}{bi_idx} = {BYTE_BUFFER}.wrap({BI}[{bi_idx}]).order({BYTE_ORDER});
-                    {fields}
+            r#"{BYTE_BUFFER} {ident}_buf = {BYTE_BUFFER}.wrap({BI}[{bi_idx}] == null ? new byte[0] : {BI}[{bi_idx}]).order({BYTE_ORDER});
+                    {ty}[] {ident}_val = new {ty}[{ident}_buf.remaining()/{sz}];
+                    for (int i=0;i<{ident}_val.length;i++) {{
+                        {element}
+                    }}
                     "#
         ));
     }
@@ -124,12 +122,14 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         &mut self,
         ident: &idlc_mir::Ident,
         _ty: Option<&str>,
-        _cnt: idlc_mir::Count,
+        cnt: idlc_mir::Count,
     ) {
+        let io_idx = self.io_idx;
+        self.io_idx += usize::from(cnt.get());
         self.pre.push(format!(
-            r#"IMinkObject[] {ident}_val = new IMinkObject[{OI}.length];
-                    for (int i=0;i<{OI}.length;i++) {{
-                        {ident}_val[i] = {OI}[i];
+            r#"{IMINK_OBJECT}[] {ident}_val = new {IMINK_OBJECT}[{cnt}];
+                    for (int i=0;i<{cnt};i++) {{
+                        {ident}_val[i] = {OI}[{io_idx} + i];
                     }}
                     "#
         ));
@@ -140,12 +140,11 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         let sz = ty.size();
         let ty = change_primitive(ty);
         let capitalized_ty = capitalize_first_letter(ty);
+        let check = refuse_if(&format!("{BI}[{bi_idx}].length != {sz}"));
 
         self.pre.push(format!(
-            r#"if ({BI}[{bi_idx}].length != {sz}) {{
-                        break;
-                    }}
-                    {ty} {ident} = {BYTE_BUFFER}.wrap({BI}[{bi_idx}]).order({BYTE_ORDER}).get{capitalized_ty}();
+            r#"{check}
+                    {ty} {ident}_val = {BYTE_BUFFER}.wrap({BI}[{bi_idx}]).order({BYTE_ORDER}).get{capitalized_ty}();
                     "#
         ));
     }
@@ -159,10 +158,9 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
             unreachable!()
         };
         let bi_idx = self.bi_idx();
+        let check = refuse_if(&format!("{BI}[{bi_idx}].length != {size}"));
         self.pre.push(format!(
-            r#"if ({BI}[{bi_idx}].length != {size}) {{
-                        break;
-                    }}
+            r#"{check}
                     {BYTE_BUFFER} {BUNDLE_IN} = {BYTE_BUFFER}.wrap({BI}[{bi_idx}]).order({BYTE_ORDER});
                     {definition}
                     "#,
@@ -172,27 +170,13 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
     fn visit_input_big_struct(&mut self, ident: &idlc_mir::Ident, ty: &idlc_mir::StructInner) {
         let bi_idx = self.bi_idx();
         let sz = ty.size();
-
-        let mut fields = String::new();
-        let mut field_idents = Vec::new();
-        get_struct_pair(ty, &mut field_idents, "".to_string());
-        for (field_ident, field_ty) in field_idents {
-            let mut capitalized_ty = String::new();
-            if let idlc_mir::Type::Primitive(p) = field_ty {
-                capitalized_ty = capitalize_first_letter(change_primitive(p));
-            }
-            fields.push_str(&format!(
-                r#"{ident}.{field_ident}={BUNDLE_IN}{bi_idx}.get{capitalized_ty}();
-                    "#
-            ));
-        }
+        let fields = get_struct(ty, &format!("{ident}_val"), &format!("{ident}_buf"));
         let ty = ty.ident.to_string();
+        let check = refuse_if(&format!("{BI}[{bi_idx}].length != {sz}"));
         self.pre.push(format!(
-            r#"if ({BI}[{bi_idx}].length != {sz}) {{
-                        break;
-                    }}
-                    {ty} {ident} = new {ty}();
-                    {BYTE_BUFFER} {BUNDLE_IN}{bi_idx} = {BYTE_BUFFER}.wrap({BI}[{bi_idx}]).order({BYTE_ORDER});
+            r#"{check}
+                    {ty} {ident}_val = null;
+                    {BYTE_BUFFER} {ident}_buf = {BYTE_BUFFER}.wrap({BI}[{bi_idx}]).order({BYTE_ORDER});
                     {fields}
                     "#
         ));
@@ -203,11 +187,9 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
 
     fn visit_input_object(&mut self, ident: &idlc_mir::Ident, _: Option<&str>) {
         let io_idx = self.io_idx();
-        let ty = IMINK_OBJECT.to_string();
 
         self.pre.push(format!(
-            r#"{ty} {ident};
-                    {ident} = {OI}[{io_idx}];
+            r#"{IMINK_OBJECT} {ident}_val = {OI}[{io_idx}];
                     "#
         ));
     }
@@ -216,37 +198,19 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         let bo_idx = self.bo_idx();
         let bo_sz_idx = self.bo_sz_idx();
         let sz = ty.size();
+        let view = typed_view(&format!("{ident}_buf"), ty);
         let ty = change_primitive(ty);
-        let capitalized_ty = capitalize_first_letter(ty);
-        let to_buffer = if !capitalized_ty.is_empty() {
-            format!("as{capitalized_ty}Buffer().")
-        } else {
-            "".to_string()
-        };
 
         self.pre.push(format!(
-            r#"{ty}[][] {ident} = new {ty}[1][];
-                    int {ident}_len = boSizes[{bo_sz_idx}];
+            r#"{ty}[][] {ident}_ptr = new {ty}[1][];
+                    int {ident}_len = boSizes[{bo_sz_idx}]/{sz};
                     "#,
         ));
         self.post.push(format!(
-            r#"{BYTE_BUFFER} buffer_{ident} = {BYTE_BUFFER}.allocate({ident}.length*{sz}).order({BYTE_ORDER});
-                    buffer_{ident}.{to_buffer}put({ident}[0]);
-                    {BO}[{bo_idx}] = buffer_{ident}.array();
-                    "#,
-        ));
-    }
-
-    fn visit_output_untyped_buffer(&mut self, ident: &idlc_mir::Ident) {
-        let bo_idx = self.bo_idx();
-        let bo_sz_idx = self.bo_sz_idx();
-        self.pre.push(format!(
-            r#"byte[][] {ident} = new byte[1][];
-                    int {ident}_len = boSizes[{bo_sz_idx}];
-                    "#,
-        ));
-        self.post.push(format!(
-            r#"{BO}[{bo_idx}]={ident}[0];
+            r#"int {ident}_lenout = {ident}_ptr[0] == null ? 0 : Math.min({ident}_ptr[0].length, {ident}_len);
+                    {BYTE_BUFFER} {ident}_buf = {BYTE_BUFFER}.allocate({ident}_lenout*{sz}).order({BYTE_ORDER});
+                    if ({ident}_lenout > 0) {view}.put({ident}_ptr[0], 0, {ident}_lenout);
+                    {BO}[{bo_idx}] = {ident}_buf.array();
                     "#,
         ));
     }
@@ -255,36 +219,22 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         let bo_idx = self.bo_idx();
         let bo_sz_idx = self.bo_sz_idx();
         let sz = ty.size();
-
-        let mut field_idents = Vec::new();
-        let mut buffer_in = String::new();
-
-        get_struct_pair(ty, &mut field_idents, "".to_string());
-        for (field_ident, field_ty) in field_idents {
-            let mut capitalized_ty = String::new();
-            if let idlc_mir::Type::Primitive(p) = field_ty {
-                capitalized_ty = capitalize_first_letter(change_primitive(p));
-            }
-            buffer_in.push_str(&format!(
-                r#"buffer_{ident}.put{capitalized_ty}(i.{field_ident});
-                    "#
-            ));
-        }
-
+        let element = put_struct(ty, &format!("{ident}_ptr[0][i]"), &format!("{ident}_buf"));
         let ty = ty.ident.to_string();
 
         self.pre.push(format!(
-            r#"{ty}[][] {ident} = new {ty}[1][];
-                    int {ident}_len = boSizes[{bo_sz_idx}];
+            r#"{ty}[][] {ident}_ptr = new {ty}[1][];
+                    int {ident}_len = boSizes[{bo_sz_idx}]/{sz};
                     "#,
         ));
 
         self.post.push(format!(
-            r#"{BYTE_BUFFER} buffer_{ident} = {BYTE_BUFFER}.allocate({ident}.length*{sz}).order({BYTE_ORDER});
-                    for ({ty} i : {ident}[0]) {{
-                        {buffer_in}
+            r#"int {ident}_lenout = {ident}_ptr[0] == null ? 0 : Math.min({ident}_ptr[0].length, {ident}_len);
+                    {BYTE_BUFFER} {ident}_buf = {BYTE_BUFFER}.allocate({ident}_lenout*{sz}).order({BYTE_ORDER});
+                    for (int i=0;i<{ident}_lenout;i++) {{
+                        {element}
                     }}
-                    {BO}[{bo_idx}] = buffer_{ident}.array();
+                    {BO}[{bo_idx}] = {ident}_buf.array();
                     "#,
         ));
     }
@@ -295,15 +245,16 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         _ty: Option<&str>,
         cnt: idlc_mir::Count,
     ) {
-        let ty = IMINK_OBJECT.to_string();
+        let oo_idx = self.oo_idx;
+        self.oo_idx += usize::from(cnt.get());
         self.pre.push(format!(
-            r#"{ty}[][] {ident} = new {ty}[1][{OO}.length];
-                    int {ident}_len = oo.length;
+            r#"{IMINK_OBJECT}[][] {ident}_ptr = new {IMINK_OBJECT}[1][{cnt}];
+                    int {ident}_len = {cnt};
                     "#,
         ));
         self.post.push(format!(
             r#"for (int i=0;i<{cnt};i++) {{
-                        oo[i] = {ident}[0][i];
+                        {OO}[{oo_idx} + i] = {ident}_ptr[0][i];
                     }}
                     "#
         ));
@@ -313,33 +264,19 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         let bo_idx = self.bo_idx();
         let bo_sz_idx = self.bo_sz_idx();
         let sz = ty.size();
-
-        let mut fields = String::new();
-        let mut field_idents = Vec::new();
-        get_struct_pair(ty, &mut field_idents, "".to_string());
-        for (field_ident, field_ty) in field_idents {
-            let mut capitalized_ty = String::new();
-            if let idlc_mir::Type::Primitive(p) = field_ty {
-                capitalized_ty = capitalize_first_letter(change_primitive(p));
-            }
-            fields.push_str(&format!(
-                r#"buffer_{ident}.put{capitalized_ty}({ident}[0].{field_ident});
-                    "#
-            ));
-        }
+        let fields = put_struct(ty, &format!("{ident}_ptr[0]"), &format!("{ident}_buf"));
         let ty = ty.ident.to_string();
+        let check = refuse_if(&format!("boSizes[{bo_sz_idx}] != {sz}"));
 
         self.pre.push(format!(
-            r#"if (boSizes[{bo_sz_idx}] != {sz}) {{
-                        break;
-                    }}
-                    {ty}[] {ident} = new {ty}[1];
+            r#"{check}
+                    {ty}[] {ident}_ptr = new {ty}[1];
                     "#,
         ));
         self.post.push(format!(
-            r#"{BYTE_BUFFER} buffer_{ident} = {BYTE_BUFFER}.allocate({sz}).order({BYTE_ORDER});
+            r#"{BYTE_BUFFER} {ident}_buf = {BYTE_BUFFER}.allocate({sz}).order({BYTE_ORDER});
                     {fields}
-                    {BO}[{bo_idx}] = buffer_{ident}.array();
+                    {BO}[{bo_idx}] = {ident}_buf.array();
                     "#,
         ));
     }
@@ -353,16 +290,15 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         let sz = ty.size();
         let ty = change_primitive(ty);
         let capitalized_ty = capitalize_first_letter(ty);
+        let check = refuse_if(&format!("boSizes[{bo_sz_idx}] != {sz}"));
 
         self.pre.push(format!(
-            r#"if (boSizes[{bo_sz_idx}] != {sz}) {{
-                        break;
-                    }}
-                    {ty}[] {ident} = new {ty}[1];
+            r#"{check}
+                    {ty}[] {ident}_ptr = new {ty}[1];
                     "#,
         ));
         self.post.push(format!(
-            r#"{BO}[{bo_idx}] = {BYTE_BUFFER}.allocate({sz}).order({BYTE_ORDER}).put{capitalized_ty}({ident}[0]).array();
+            r#"{BO}[{bo_idx}] = {BYTE_BUFFER}.allocate({sz}).order({BYTE_ORDER}).put{capitalized_ty}({ident}_ptr[0]).array();
                     "#,
         ));
     }
@@ -379,11 +315,10 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         let bo_idx = self.bo_idx();
         let bo_sz_idx = self.bo_sz_idx();
         let bo_assignments = packer.pre_bo_assignments();
+        let check = refuse_if(&format!("boSizes[{bo_sz_idx}] != {size}"));
 
         self.pre.push(format!(
-            r#"if (boSizes[{bo_sz_idx}] != {size}) {{
-                        break;
-                    }}
+            r#"{check}
                     {bo_assignments}
                     "#,
         ));
@@ -397,13 +332,12 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
 
     fn visit_output_object(&mut self, ident: &idlc_mir::Ident, _: Option<&str>) {
         let oo_idx = self.oo_idx();
-        let ty = IMINK_OBJECT.to_string();
         self.pre.push(format!(
-            r#"{ty}[] {ident} = new {ty}[1];
+            r#"{IMINK_OBJECT}[] {ident}_ptr = new {IMINK_OBJECT}[1];
                     "#,
         ));
         self.post.push(format!(
-            r#"{OO}[{oo_idx}] = {ident}[0];
+            r#"{OO}[{oo_idx}] = {ident}_ptr[0];
                     "#
         ));
     }
@@ -421,7 +355,7 @@ pub fn emit(
     let pre = invokes.pre();
     let post = invokes.post();
 
-    let returns = super::signature::iter_to_string(signature.return_idents());
+    let returns = super::signature::iter_to_string(signature.idents());
 
     format!(
         r#"case {iface_ident}_{OP_ID}_{ident}: {{
diff --git a/idlc_codegen_java/src/interface/functions/serialization.rs b/idlc_codegen_java/src/interface/functions/serialization.rs
index 17854ab..90c4d4e 100644
--- a/idlc_codegen_java/src/interface/functions/serialization.rs
+++ b/idlc_codegen_java/src/interface/functions/serialization.rs
@@ -5,7 +5,7 @@ use idlc_codegen::serialization::Type;
 
 use crate::interface::mink_primitives::{BUNDLE_IN, BUNDLE_OUT};
 
-use crate::types::{capitalize_first_letter, change_primitive, get_struct_pair};
+use crate::types::{capitalize_first_letter, change_primitive, get_struct, put_struct};
 
 #[derive(Debug, Clone)]
 pub struct TransportBuffer {
@@ -37,14 +37,14 @@ impl<'a> PackedPrimitives<'a> {
             &Type::Primitive(p) => {
                 let ty = change_primitive(p);
                 assignments += &format!(
-                    r#"{ty}[] {ident} = new {ty}[1];
+                    r#"{ty}[] {ident}_ptr = new {ty}[1];
                     "#
                 );
             }
             Type::SmallStruct(s) => {
                 let ty = s.ident.to_string();
                 assignments += &format!(
-                    r#"{ty}[] {ident} = new {ty}[1];
+                    r#"{ty}[] {ident}_ptr = new {ty}[1];
                     "#
                 );
             }
@@ -74,79 +74,45 @@ impl<'a> PackedPrimitives<'a> {
 
         let mut fields = String::new();
         for (ident, ty) in pairs {
-            match ty {
+            fields.push_str(&match ty {
                 &Type::Primitive(p) => {
                     let ty = change_primitive(p);
                     let capitalized_ty = capitalize_first_letter(ty);
-                    if is_invoke {
-                        if in_out == BUNDLE_IN {
-                            fields.push_str(&format!(
-                                r#"{ty} {ident}={in_out}.get{capitalized_ty}();
-                    "#
-                            ));
-                        } else {
-                            fields.push_str(&format!(
-                                r#"{in_out}.put{capitalized_ty}({ident}[0]);
-                    "#
-                            ));
+                    match (is_invoke, in_out == BUNDLE_IN) {
+                        (true, true) => {
+                            format!("{ty} {ident}_val = {in_out}.get{capitalized_ty}();\n")
                         }
-                    } else if in_out == BUNDLE_IN {
-                        fields.push_str(&format!(
-                            r#"{in_out}.put{capitalized_ty}({ident}_val);
-                "#
-                        ));
-                    } else {
-                        fields.push_str(&format!(
-                            r#"if ({ident}_ptr != null) {{
-                    {ident}_ptr[0] = {in_out}.get{capitalized_ty}();
+                        (true, false) => format!("{in_out}.put{capitalized_ty}({ident}_ptr[0]);\n"),
+                        (false, true) => format!("{in_out}.put{capitalized_ty}({ident}_val);\n"),
+                        (false, false) => format!(
+                            r#"{ty} {ident}_out = {in_out}.get{capitalized_ty}();
+                if ({ident}_ptr != null) {{
+                    {ident}_ptr[0] = {ident}_out;
                 }}
                 "#
-                        ));
+                        ),
                     }
                 }
                 Type::SmallStruct(s) => {
-                    let mut field_idents = Vec::new();
                     let ty = s.ident.to_string();
-                    if is_invoke && in_out == BUNDLE_IN {
-                        fields.push_str(&format!(
-                            r#"{ty} {ident} = new {ty}();
-                    "#,
-                        ));
-                    }
-                    get_struct_pair(s, &mut field_idents, "".to_string());
-                    for (field_ident, field_ty) in field_idents {
-                        let mut capitalized_ty = String::new();
-                        if let idlc_mir::Type::Primitive(p) = field_ty {
-                            capitalized_ty = capitalize_first_letter(change_primitive(p));
-                        }
-                        if is_invoke {
-                            if in_out == BUNDLE_IN {
-                                fields.push_str(&format!(
-                                    r#"{ident}.{field_ident}={BUNDLE_IN}.get{capitalized_ty}();
-                    "#,
-                                ));
-                            } else {
-                                fields.push_str(&format!(
-                                    r#"{BUNDLE_OUT}.put{capitalized_ty}({ident}[0].{field_ident});
-                    "#,
-                                ));
-                            }
-                        } else if in_out == BUNDLE_IN {
-                            fields.push_str(&format!(
-                                r#"{in_out}.put{capitalized_ty}({ident}_val.{field_ident});
-            "#,
-                            ));
-                        } else {
-                            fields.push_str(&format!(
-                                r#"if ({ident}_ptr != null) {{
-                    {ident}_ptr[0].{field_ident} = {in_out}.get{capitalized_ty}();
+                    match (is_invoke, in_out == BUNDLE_IN) {
+                        (true, true) => format!(
+                            "{ty} {ident}_val = null;\n{}",
+                            get_struct(s, &format!("{ident}_val"), in_out)
+                        ),
+                        (true, false) => put_struct(s, &format!("{ident}_ptr[0]"), in_out),
+                        (false, true) => put_struct(s, &format!("{ident}_val"), in_out),
+                        (false, false) => format!(
+                            r#"{ty} {ident}_out = {ident}_ptr == null ? null : {ident}_ptr[0];
+                {}if ({ident}_ptr != null) {{
+                    {ident}_ptr[0] = {ident}_out;
                 }}
                 "#,
-                            ));
-                        }
+                            get_struct(s, &format!("{ident}_out"), in_out)
+                        ),
                     }
                 }
-            };
+            });
         }
         let definition = fields;
         Some(TransportBuffer { definition, size })
diff --git a/idlc_codegen_java/src/interface/functions/signature.rs b/idlc_codegen_java/src/interface/functions/signature.rs
index 9b2246a..b1b7d1a 100644
--- a/idlc_codegen_java/src/interface/functions/signature.rs
+++ b/idlc_codegen_java/src/interface/functions/signature.rs
@@ -8,7 +8,6 @@ use crate::types::change_primitive;
 #[derive(Debug, Clone, Default)]
 pub struct Signature {
     inputs: Vec<(String, String)>,
-    returns: Vec<(String, String)>,
 }
 
 pub fn iter_to_string(iter: impl Iterator<Item = impl AsRef<str>>) -> String {
@@ -41,8 +40,8 @@ impl Signature {
     }
 
     #[inline]
-    pub fn return_idents(&self) -> impl Iterator<Item = &str> {
-        self.returns.iter().map(|(ident, _)| ident.as_str())
+    pub fn idents(&self) -> impl Iterator<Item = &str> {
+        self.inputs.iter().map(|(ident, _)| ident.as_str())
     }
 }
 
@@ -50,13 +49,11 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
     fn visit_input_primitive_buffer(&mut self, ident: &Ident, ty: Primitive) {
         let ty = format!("{}[]", change_primitive(ty));
         self.inputs.push((format!("{}_val", ident), ty.to_string()));
-        self.returns.push((ident.to_string(), ty));
     }
 
     fn visit_input_struct_buffer(&mut self, ident: &Ident, ty: &StructInner) {
         let new_ty = format!("{}[]", ty.ident);
         self.inputs.push((format!("{}_val", ident), new_ty));
-        self.returns.push((ident.to_string(), ty.ident.to_string()));
     }
 
     fn visit_input_object_array(
@@ -69,26 +66,20 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
         let ty = format!("{IMINK_OBJECT}[]");
 
         self.inputs.push((format!("{}_val", ident), ty.to_string()));
-        self.returns
-            .push((format!("{}_val", ident), ty.to_string()));
     }
 
     fn visit_input_primitive(&mut self, ident: &Ident, ty: Primitive) {
         self.inputs
             .push((format!("{}_val", ident), change_primitive(ty).to_string()));
-        self.returns
-            .push((ident.to_string(), change_primitive(ty).to_string()));
     }
 
     fn visit_input_big_struct(&mut self, ident: &Ident, ty: &StructInner) {
         self.inputs
             .push((format!("{}_val", ident), ty.ident.to_string()));
-        self.returns.push((ident.to_string(), ty.ident.to_string()));
     }
     fn visit_input_small_struct(&mut self, ident: &Ident, ty: &StructInner) {
         self.inputs
             .push((format!("{}_val", ident), ty.ident.to_string()));
-        self.returns.push((ident.to_string(), ty.ident.to_string()));
     }
 
     fn visit_input_object(&mut self, ident: &Ident, _: Option<&str>) {
@@ -96,8 +87,6 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
 
         self.inputs
             .push((format!("{}_val", ident), IMINK_OBJECT.to_string()));
-        self.returns
-            .push((ident.to_string(), IMINK_OBJECT.to_string()));
     }
 
     fn visit_output_primitive_buffer(&mut self, ident: &Ident, ty: Primitive) {
@@ -105,8 +94,6 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
         self.inputs.push((format!("{}_ptr", ident), ty.to_string()));
         self.inputs
             .push((format!("{}_len", ident), "int".to_string()));
-        self.returns.push((ident.to_string(), ty.to_string()));
-        self.returns.push((format!("{}_len", ident), ty));
     }
 
     fn visit_output_struct_buffer(&mut self, ident: &Ident, ty: &StructInner) {
@@ -114,9 +101,6 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
         self.inputs.push((format!("{}_ptr", ident), new_ty));
         self.inputs
             .push((format!("{}_len", ident), "int".to_string()));
-        self.returns.push((ident.to_string(), ty.ident.to_string()));
-        self.returns
-            .push((format!("{}_len", ident), ty.ident.to_string()));
     }
 
     fn visit_output_object_array(&mut self, ident: &Ident, _: Option<&str>, _cnt: idlc_mir::Count) {
@@ -126,27 +110,20 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
         self.inputs.push((format!("{}_ptr", ident), ty));
         self.inputs
             .push((format!("{}_len", ident), "int".to_string()));
-        self.returns
-            .push((ident.to_string(), IMINK_OBJECT.to_string()));
-        self.returns
-            .push((format!("{}_len", ident), "int".to_string()));
     }
 
     fn visit_output_primitive(&mut self, ident: &Ident, ty: Primitive) {
         let ty = format!("{}[]", change_primitive(ty));
         self.inputs.push((format!("{}_ptr", ident), ty.to_string()));
-        self.returns.push((ident.to_string(), ty));
     }
 
     fn visit_output_big_struct(&mut self, ident: &Ident, ty: &StructInner) {
         let new_ty = format!("{}[]", ty.ident);
         self.inputs.push((format!("{}_ptr", ident), new_ty));
-        self.returns.push((ident.to_string(), ty.ident.to_string()));
     }
     fn visit_output_small_struct(&mut self, ident: &Ident, ty: &StructInner) {
         let new_ty = format!("{}[]", ty.ident);
         self.inputs.push((format!("{}_ptr", ident), new_ty));
-        self.returns.push((ident.to_string(), ty.ident.to_string()));
     }
 
     fn visit_output_object(&mut self, ident: &Ident, _: Option<&str>) {
@@ -154,7 +131,5 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
 
         let ty = format!("{IMINK_OBJECT}[]");
         self.inputs.push((format!("{}_ptr", ident), ty));
-        self.returns
-            .push((ident.to_string(), IMINK_OBJECT.to_string()));
     }
 }
diff --git a/idlc_codegen_java/src/types.rs b/idlc_codegen_java/src/types.rs
index 8d7458c..b947670 100644
--- a/idlc_codegen_java/src/types.rs
+++ b/idlc_codegen_java/src/types.rs
@@ -41,27 +41,85 @@ pub fn capitalize_first_letter(s: &str) -> String {
     s.to_case(convert_case::Case::UpperCamel)
 }
 
-pub fn get_struct_pair(
-    r#struct: &idlc_mir::StructInner,
-    result: &mut Vec<(String, idlc_mir::Type)>,
-    mut parent: String,
-) {
-    if !parent.is_empty() {
-        parent.push('.');
+/// View of a byte buffer named `buffer` through which arrays of `ty` are copied.
+pub fn typed_view(buffer: &str, ty: idlc_mir::Primitive) -> String {
+    match capitalize_first_letter(change_primitive(ty)).as_str() {
+        "" => buffer.to_string(),
+        ty => format!("{buffer}.as{ty}Buffer()"),
     }
-    for field in &r#struct.fields {
-        match &field.val.0 {
-            idlc_mir::Type::Primitive(_) => {
-                result.push((format!("{parent}{}", field.ident), field.val.0.clone()))
+}
+
+/// Fields of a struct with their type, name, and index if they are arrays.
+fn fields(
+    r#struct: &idlc_mir::StructInner,
+) -> impl Iterator<Item = (&idlc_mir::Type, String, u16)> {
+    r#struct
+        .fields
+        .iter()
+        .map(|field| (&field.val.0, field.ident.to_string(), field.val.1.get()))
+}
+
+/// Statements that put the value of `r#struct` at `place` into `buffer`.
+pub fn put_struct(r#struct: &idlc_mir::StructInner, place: &str, buffer: &str) -> String {
+    put_fields(r#struct, place, buffer, 0)
+}
+
+fn put_fields(r#struct: &idlc_mir::StructInner, place: &str, buffer: &str, depth: usize) -> String {
+    let mut statements = String::new();
+    for (ty, ident, count) in fields(r#struct) {
+        let mut place = format!("{place}.{ident}");
+        if count > 1 {
+            statements.push_str(&format!(
+                "for (int i{depth} = 0; i{depth} < {count}; i{depth}++) {{\n"
+            ));
+            place.push_str(&format!("[i{depth}]"));
+        }
+        match ty {
+            &idlc_mir::Type::Primitive(p) => {
+                let ty = capitalize_first_letter(change_primitive(p));
+                statements.push_str(&format!("{buffer}.put{ty}({place});\n"));
             }
-            idlc_mir::Type::Struct(idlc_mir::Struct::Big(s) | idlc_mir::Struct::Small(s)) => {
-                let new_parent = format!("{parent}{}", field.ident);
-                get_struct_pair(s, result, new_parent);
+            idlc_mir::Type::Struct(s) => {
+                statements.push_str(&put_fields(s.as_ref(), &place, buffer, depth + 1));
             }
-            idlc_mir::Type::Interface(_) => {
-                result.push((format!("{parent}{}", field.ident), field.val.0.clone()))
+            _ => unimplemented!("Java codegen doesn't support objects in struct"),
+        }
+        if count > 1 {
+            statements.push_str("}\n");
+        }
+    }
+    statements
+}
+
+/// Statements that fill the value of `r#struct` at `place` from `buffer`.
+pub fn get_struct(r#struct: &idlc_mir::StructInner, place: &str, buffer: &str) -> String {
+    get_fields(r#struct, place, buffer, 0)
+}
+
+fn get_fields(r#struct: &idlc_mir::StructInner, place: &str, buffer: &str, depth: usize) -> String {
+    let ident = &r#struct.ident;
+    let mut statements = format!("if ({place} == null) {place} = new {ident}();\n");
+    for (ty, ident, count) in fields(r#struct) {
+        let mut place = format!("{place}.{ident}");
+        if count > 1 {
+            statements.push_str(&format!(
+                "for (int i{depth} = 0; i{depth} < {count}; i{depth}++) {{\n"
+            ));
+            place.push_str(&format!("[i{depth}]"));
+        }
+        match ty {
+            &idlc_mir::Type::Primitive(p) => {
+                let ty = capitalize_first_letter(change_primitive(p));
+                statements.push_str(&format!("{place} = {buffer}.get{ty}();\n"));
             }
-            _ => unreachable!(),
+            idlc_mir::Type::Struct(s) => {
+                statements.push_str(&get_fields(s.as_ref(), &place, buffer, depth + 1));
+            }
+            _ => unimplemented!("Java codegen doesn't support objects in struct"),
+        }
+        if count > 1 {
+            statements.push_str("}\n");
         }
     }
+    statements
 }
-- 
2.43.0


From e968717ce0ff1fac244a4b4ab34d8e98bc96f593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:48 +0000
Subject: [PATCH 14/15] fix: Rust code compiles when a method is called into or
 as_ref

The skeleton called implementation methods on the locked box, and the proxy
called its own as_ref, so a method of the interface with such a name hid, or
was hidden by, the trait method of the standard library.
---
 idlc_codegen_rust/src/interface/functions/invoke.rs | 3 ++-
 idlc_codegen_rust/src/interface/mod.rs              | 5 +++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/idlc_codegen_rust/src/interface/functions/invoke.rs b/idlc_codegen_rust/src/interface/functions/invoke.rs
index a4c375d..114c393 100644
--- a/idlc_codegen_rust/src/interface/functions/invoke.rs
+++ b/idlc_codegen_rust/src/interface/functions/invoke.rs
@@ -296,6 +296,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
 }
 
 pub fn emit(
+    interface: &str,
     function: &idlc_mir::Function,
     signature: &super::signature::Signature,
     counts: idlc_codegen::counts::Counter,
@@ -335,7 +336,7 @@ pub fn emit(
 
         {pre}
 
-        match (*{CONTEXT}).inner.lock().map_err(|_| std::mem::transmute({GENERIC_ERROR}::INVALID)).and_then(|mut {CONTEXT}| {CONTEXT}.r#{ident}({params})) {{
+        match (*{CONTEXT}).inner.lock().map_err(|_| std::mem::transmute({GENERIC_ERROR}::INVALID)).and_then(|mut {CONTEXT}| <dyn I{interface}>::r#{ident}(&mut **{CONTEXT}, {params})) {{
             Ok(({returns})) => {{
                 {post}
                 {OK}
diff --git a/idlc_codegen_rust/src/interface/mod.rs b/idlc_codegen_rust/src/interface/mod.rs
index 03e5d5d..a852bad 100644
--- a/idlc_codegen_rust/src/interface/mod.rs
+++ b/idlc_codegen_rust/src/interface/mod.rs
@@ -41,7 +41,7 @@ pub fn emit(interface: &Interface) -> String {
                     counts,
                     &signature,
                 ));
-                invoke_arms.push(functions::invoke::emit(f, &signature, counts));
+                invoke_arms.push(functions::invoke::emit(ident, f, &signature, counts));
                 trait_functions.push(functions::traits::emit(f, &documentation, &signature));
             }
         }
@@ -62,6 +62,7 @@ pub fn emit(interface: &Interface) -> String {
             .for_each(|f| {
                 let signature = functions::signature::Signature::new(f);
                 invoke_arms.push(functions::invoke::emit(
+                    ident,
                     f,
                     &signature,
                     idlc_codegen::counts::Counter::new(f),
@@ -115,7 +116,7 @@ pub fn emit(interface: &Interface) -> String {
 
         #[inline]
         fn deref(&self) -> &Self::Target {{
-            self.as_ref()
+            AsRef::as_ref(self)
         }}
     }}
 
-- 
2.43.0


From 1b12408c856da836d0bb7ddbdfee0f55bc0a526a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:20 +0000
Subject: [PATCH 15/15] fix: comment text never joins two lines of generated C

---
 idlc_codegen/src/documentation.rs | 8 ++++++++
 idlc_codegen/src/marking.rs       | 4 +++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/idlc_codegen/src/documentation.rs b/idlc_codegen/src/documentation.rs
index 5dd9fc8..b218687 100644
--- a/idlc_codegen/src/documentation.rs
+++ b/idlc_codegen/src/documentation.rs
@@ -42,6 +42,11 @@ impl DocumentationStyle {
             Self::Java => doc.replace("/*", "/ *").replace("\\u", "\\ u"),
         }
     }
+
+    /// A C compiler joins a line that ends like this with the next one.
+    fn continues(self, line: &str) -> bool {
+        self == Self::C && (line.ends_with("/\\") || line.ends_with("??/"))
+    }
 }
 
 #[derive(Debug, Clone, PartialEq, Eq)]
@@ -103,6 +108,9 @@ impl Documentation {
                 }
                 None => {}
             }
+            if style.continues(docstring) {
+                documentation.push('.');
+            }
             documentation.push('\n');
         }
         documentation.push_str(style.end());
diff --git a/idlc_codegen/src/marking.rs b/idlc_codegen/src/marking.rs
index e515034..411f405 100644
--- a/idlc_codegen/src/marking.rs
+++ b/idlc_codegen/src/marking.rs
@@ -36,7 +36,9 @@ impl MarkingStyle {
     fn sanitize(self, line: &str) -> String {
         match self {
             Self::Rust => line.to_string(),
-            Self::C if line.trim_end().ends_with('\\') => format!("{line}."),
+            Self::C if line.trim_end().ends_with('\\') || line.trim_end().ends_with("??/") => {
+                format!("{line}.")
+            }
             Self::C => line.to_string(),
             Self::Java => line.replace("*/", "* /").replace("\\u", "\\ u"),
         }
-- 
2.43.0

