From c58eb3efd6864170b6f1dd70482fd6885be25d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:21:18 +0000
Subject: [PATCH 01/10] fix: keep struct fields in declaration order when
 resolving nested types

Fields whose type was not resolved yet were moved behind the ones that were.
The wire layout therefore depended on hash map iteration order.
---
 src/lib/check.rs | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/src/lib/check.rs b/src/lib/check.rs
index 29036ad..a33e497 100644
--- a/src/lib/check.rs
+++ b/src/lib/check.rs
@@ -283,7 +283,7 @@ fn resolve_one_second_pass<'a>(
         // store any field (+ its type) which could not be resolved
         let mut not_resolved = Vec::new();
         let mut fields = Vec::new();
-        for (field_name, field_type) in s.0.into_iter() {
+        for (field_name, field_type) in s.0.iter() {
             if let Some(field) = resolve_struct_field(field_name, field_type.clone(), cache, name)? {
                 fields.push(field);
             } else {
@@ -311,21 +311,13 @@ fn resolve_one_second_pass<'a>(
                 }
             }
             // if we get here, it means all the field's types were successfully resolved and
-            // placed in the cache so finish resolving our fields
-            let mut now_resolved = Vec::new();
-            for (fname, fty) in not_resolved.into_iter() {
-                now_resolved.push(resolve_struct_field(fname, fty, cache, name)?.unwrap());
+            // placed in the cache so resolve all of our fields again, in declaration order
+            let mut fields = Vec::new();
+            for (fname, fty) in s.0.into_iter() {
+                fields.push(resolve_struct_field(fname, fty, cache, name)?.unwrap());
             }
             // and we have a complete type
-            cache.insert(
-                name,
-                Ptr::new((
-                    name,
-                    ResolvedType::Struct(Struct {
-                        fields: fields.into_iter().chain(now_resolved).collect(),
-                    }),
-                )),
-            );
+            cache.insert(name, Ptr::new((name, ResolvedType::Struct(Struct { fields }))));
         }
     } else {
         panic!(
-- 
2.43.0


From 15c70772b4ad70dce0892dfd5a501bc344896a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:21:19 +0000
Subject: [PATCH 02/10] fix: detect duplicate fields after the first
 non-builtin field

The uniqueness check stopped at the first field with a user-defined type, so
later duplicates were accepted.
---
 src/lib/check.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/lib/check.rs b/src/lib/check.rs
index a33e497..a0a2335 100644
--- a/src/lib/check.rs
+++ b/src/lib/check.rs
@@ -228,8 +228,6 @@ fn resolve_one_first_pass<'a>(
                 field_names.insert(fname);
                 if let Some(field) = resolve_struct_field(fname, fty.clone(), builtins, name)? {
                     fields.push(field);
-                } else {
-                    break;
                 }
             }
             if fields.len() == s.0.len() {
-- 
2.43.0


From cfc8e9b99a503bee3c2adf91f273074e4873e59e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:21:20 +0000
Subject: [PATCH 03/10] fix: report a cycle as a cycle when it does not include
 the first visited type

Such a cycle was reported as a missing declaration of a type that does exist.
---
 src/lib/check.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/lib/check.rs b/src/lib/check.rs
index a0a2335..55236d0 100644
--- a/src/lib/check.rs
+++ b/src/lib/check.rs
@@ -303,6 +303,13 @@ fn resolve_one_second_pass<'a>(
                     // it may fail, so propagate the error out
                     resolve_one_second_pass(ftype_name, utype, cache, visited, unresolved)?;
                 } else if !cache.contains_key(&ftype_name) {
+                    // if it's still in the middle of being resolved, it's a cycle
+                    if visited.contains(&ftype_name) {
+                        return Err(format!(
+                            "Found a cycle between two or more top level definitions in type '{}'",
+                            &ftype_name
+                        ));
+                    }
                     //  if the field's typename is unresolved and not in the cache (resolved), it
                     // doesn't exist.
                     return Err(format!("Declaration for type '{}' does not exist", ftype_name));
-- 
2.43.0


From 1a3bbf51a91b85efec9d95ffd38741ffd89667ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:21:39 +0000
Subject: [PATCH 04/10] fix: treat the 32nd enum variant as an unsigned value

Both its TypeScript constant and the upper bound checked when reading were
negative. No packet holding an enum with 32 variants could be read.
---
 src/lib/gen/ts.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/lib/gen/ts.rs b/src/lib/gen/ts.rs
index 200fbef..ef5a573 100644
--- a/src/lib/gen/ts.rs
+++ b/src/lib/gen/ts.rs
@@ -175,8 +175,8 @@ fn gen_read_impl_enum(ctx: &mut GenCtx, type_info: &check::Enum, _name: &str) {
         check::EnumRepr::U32 => "uint32",
     };
     let (min, max) = (
-        1 << type_info.variants[0].value,
-        1 << type_info.variants[type_info.variants.len() - 1].value,
+        1u32 << type_info.variants[0].value,
+        1u32 << type_info.variants[type_info.variants.len() - 1].value,
     );
     let fname = self::fname(&ctx.stack);
     let temp = self::varname(&ctx.stack, "temp");
@@ -317,7 +317,9 @@ fn gen_enum_decl(ctx: &mut GenCtx, ty: &check::Enum, name: &str) {
     cat!(ctx, "export const enum {name} {{\n");
     cat!(ctx +++);
     for variant in ty.variants.iter() {
-        cat!(ctx, "{variant.name} = 1 << {variant.value},\n");
+        // bit 31 is the sign bit of a bitwise operation in TS
+        let unsigned = if variant.value == 31 { " >>> 0" } else { "" };
+        cat!(ctx, "{variant.name} = 1 << {variant.value}{unsigned},\n");
     }
     cat!(ctx ---);
     cat!(ctx, "}}\n");
-- 
2.43.0


From f2f3e8a2d4b19af656891af2e0573d895e58a282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:22:11 +0000
Subject: [PATCH 05/10] fix: keep the names of generated local variables unique

Names are built by joining field names with underscores. Fields such as 'a.b'
and 'a_b' produced the same name, and the generated code did not compile.
---
 src/lib/gen/gen_ctx.rs | 12 ++++++++++++
 src/lib/gen/ts.rs      | 18 +++++++++---------
 2 files changed, 21 insertions(+), 9 deletions(-)

diff --git a/src/lib/gen/gen_ctx.rs b/src/lib/gen/gen_ctx.rs
index 27d36de..d784a5a 100644
--- a/src/lib/gen/gen_ctx.rs
+++ b/src/lib/gen/gen_ctx.rs
@@ -1,7 +1,10 @@
+use std::collections::HashSet;
+
 pub struct GenCtx<'a> {
     pub indentation: String,
     pub out: &'a mut String,
     pub stack: Vec<String>,
+    declared: HashSet<String>,
 }
 
 impl<'a> GenCtx<'a> {
@@ -10,6 +13,7 @@ impl<'a> GenCtx<'a> {
             indentation: String::new(),
             out,
             stack: Vec::new(),
+            declared: HashSet::new(),
         }
     }
 
@@ -31,6 +35,14 @@ impl<'a> GenCtx<'a> {
     #[inline]
     pub fn pop_fname(&mut self) { self.stack.pop(); }
 
+    /// Reserves a local variable name, making it unique if it's already taken
+    pub fn declare(&mut self, mut name: String) -> String {
+        while !self.declared.insert(name.clone()) {
+            name.push('_');
+        }
+        name
+    }
+
     #[inline]
     pub fn swap_stack(&mut self, other: &mut Vec<String>) { std::mem::swap(&mut self.stack, other); }
 }
diff --git a/src/lib/gen/ts.rs b/src/lib/gen/ts.rs
index ef5a573..482c631 100644
--- a/src/lib/gen/ts.rs
+++ b/src/lib/gen/ts.rs
@@ -23,7 +23,7 @@ fn fname(stack: &[String]) -> String { stack.join(".") }
 
 fn gen_write_impl_optional(ctx: &mut GenCtx, body: impl Fn(&mut GenCtx)) {
     let fname = self::fname(&ctx.stack);
-    let bind_var = bindname(&ctx.stack);
+    let bind_var = ctx.declare(bindname(&ctx.stack));
     let mut old_stack = Vec::new();
     ctx.swap_stack(&mut old_stack);
     ctx.push_fname(bind_var.clone());
@@ -48,8 +48,8 @@ fn gen_write_impl_optional(ctx: &mut GenCtx, body: impl Fn(&mut GenCtx)) {
 
 fn gen_write_impl_array(ctx: &mut GenCtx, body: impl Fn(&mut GenCtx)) {
     let fname = self::fname(&ctx.stack);
-    let item = varname(&ctx.stack, "item");
-    let index = varname(&ctx.stack, "index");
+    let item = ctx.declare(varname(&ctx.stack, "item"));
+    let index = ctx.declare(varname(&ctx.stack, "index"));
     let mut old_stack = Vec::new();
     ctx.swap_stack(&mut old_stack);
     ctx.push_fname(item.clone());
@@ -128,10 +128,10 @@ fn gen_read_impl_optional(ctx: &mut GenCtx, body: impl Fn(&mut GenCtx)) {
 }
 
 fn gen_read_impl_array(ctx: &mut GenCtx, init_struct: bool, body: impl Fn(&mut GenCtx)) {
-    let len_var = varname(&ctx.stack, "len");
+    let len_var = ctx.declare(varname(&ctx.stack, "len"));
     let fname = self::fname(&ctx.stack);
-    let idx_var = varname(&ctx.stack, "index");
-    let item_var = varname(&ctx.stack, "item");
+    let idx_var = ctx.declare(varname(&ctx.stack, "index"));
+    let item_var = ctx.declare(varname(&ctx.stack, "item"));
     let mut old_stack = Vec::new();
     ctx.swap_stack(&mut old_stack);
     ctx.push_fname(item_var.clone());
@@ -156,7 +156,7 @@ fn gen_read_impl_array(ctx: &mut GenCtx, init_struct: bool, body: impl Fn(&mut G
 fn gen_read_impl_builtin(ctx: &mut GenCtx, type_info: &check::Builtin, type_name: &str) {
     match type_info {
         check::Builtin::String => {
-            let len_var = varname(&ctx.stack, "len");
+            let len_var = ctx.declare(varname(&ctx.stack, "len"));
             cat!(ctx, "let {len_var} = reader.read_uint32();\n");
             let fname = self::fname(&ctx.stack);
             cat!(ctx, "{fname} = reader.read_string({len_var});\n");
@@ -179,7 +179,7 @@ fn gen_read_impl_enum(ctx: &mut GenCtx, type_info: &check::Enum, _name: &str) {
         1u32 << type_info.variants[type_info.variants.len() - 1].value,
     );
     let fname = self::fname(&ctx.stack);
-    let temp = self::varname(&ctx.stack, "temp");
+    let temp = ctx.declare(self::varname(&ctx.stack, "temp"));
     cat!(ctx, "let {temp} = reader.read_{repr_name}();\n");
     cat!(ctx, "if ({min} <= {temp} && {temp} <= {max}) {fname} = {temp};\n");
     cat!(ctx, "else reader.failed = true;\n");
@@ -187,7 +187,7 @@ fn gen_read_impl_enum(ctx: &mut GenCtx, type_info: &check::Enum, _name: &str) {
 
 fn gen_read_impl_struct(ctx: &mut GenCtx, ty: &check::Struct, _name: &str, init: bool) {
     let fname = self::fname(&ctx.stack);
-    let bind_var = bindname(&ctx.stack);
+    let bind_var = ctx.declare(bindname(&ctx.stack));
     let old_stack = if init {
         let mut old_stack = Vec::new();
         ctx.swap_stack(&mut old_stack);
-- 
2.43.0


From d26ec14096b49c133c66b460667aa99656d39d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:22:12 +0000
Subject: [PATCH 06/10] fix: show the right character in parse errors after
 non-ASCII text

The error location is a byte offset, but it was used to count characters.
---
 src/lib/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/lib.rs b/src/lib/lib.rs
index 17e830f..2977a9d 100644
--- a/src/lib/lib.rs
+++ b/src/lib/lib.rs
@@ -25,7 +25,7 @@ fn pretty_error(file: &str, err: ParseError<LineCol>) -> String {
     let mut out_str = String::new();
     out_str += &format!(
         "\nUnexpected token '{}' at line {}, column {}",
-        file.chars().nth(err.location.offset).unwrap_or('\0'),
+        file[err.location.offset..].chars().next().unwrap_or('\0'),
         err.location.line,
         err.location.column
     );
-- 
2.43.0


From 1e20916b1848023fdea8dd369f35cc1ead8f091a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:22:13 +0000
Subject: [PATCH 07/10] fix: accept identifiers which only start with a keyword

Names such as 'string_scalar' were rejected as if they were reserved. A type
named 'exported' was taken for an export of 'ed'.
---
 src/lib/parser.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib/parser.rs b/src/lib/parser.rs
index 6066bda..0d108c5 100644
--- a/src/lib/parser.rs
+++ b/src/lib/parser.rs
@@ -19,7 +19,7 @@ peg::parser!(pub grammar pkt() for str {
 
     /// Parses reserved keywords (the base types + enum/struct keywords)
     rule reserved()
-        = "uint8"
+        = ("uint8"
         / "uint16"
         / "uint32"
         / "int8"
@@ -28,7 +28,7 @@ peg::parser!(pub grammar pkt() for str {
         / "float"
         / "string"
         / "enum"
-        / "struct"
+        / "struct") !ident_chars()
     /// Parses the first character of an identifier, which cannot contain numbers
     rule ident_start() -> &'input str = s:$(['a'..='z'|'A'..='Z'|'_']) { s }
     /// Parses any alphanumeric characters as part of an identifier
@@ -70,7 +70,7 @@ peg::parser!(pub grammar pkt() for str {
         }
 
     rule export() -> Node<'input>
-        = "export" _ s:string() {
+        = "export" !ident_chars() _ s:string() {
             Node::Export(s)
         }
 
-- 
2.43.0


From cb84b808c6765ac5480201f9e10aca4ef1cd2396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:22:14 +0000
Subject: [PATCH 08/10] fix: accept whitespace after exports and on otherwise
 empty lines

Trailing whitespace was accepted after a declaration, but was a parse error
after an export or a comment line, and at the start of a file.
---
 src/lib/parser.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib/parser.rs b/src/lib/parser.rs
index 0d108c5..ad3e3ba 100644
--- a/src/lib/parser.rs
+++ b/src/lib/parser.rs
@@ -75,13 +75,13 @@ peg::parser!(pub grammar pkt() for str {
         }
 
     rule line() -> Option<Node<'input>>
-        = _ comment() __ { None }
-        / _ e:(export()) __ { Some(e) }
+        = _ comment() ___ { None }
+        / _ e:(export()) ___ { Some(e) }
         / _ s:(decl()) __ { Some(s) }
 
     /// Parses a schema file
     pub rule schema() -> AST<'input>
-        = __? lines:(line()*) {
+        = ___ lines:(line()*) {
             lines.into_iter()
                 .filter_map(|x| x)
                 .collect()
-- 
2.43.0


From ade5adf5909fe4754e5f3235dbe92cad48d74e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:22:14 +0000
Subject: [PATCH 09/10] fix: fail when the input path does not exist

A missing or mistyped path was ignored, and the compiler reported success.
---
 src/main.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index bedcf16..b8ad73d 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -134,6 +134,8 @@ fn main() -> Result<()> {
             let out = result.path.clone();
             save_one(result, &format_path(&out, &base_dir, &out_dir, opts.lang, false)?)?;
         }
+    } else {
+        anyhow::bail!("could not find '{}'", opts.path);
     }
 
     Ok(())
-- 
2.43.0


From a035529363dc823c073ff22b07302dccde44f320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:22:15 +0000
Subject: [PATCH 10/10] fix: keep dots in the name of a single compiled file

'a.b.pkt' was written to 'a.ts', because both the extension and the rest of the
name after the dot were dropped. Compiling a directory writes 'a.b.ts'.
---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index b8ad73d..8ee9c0f 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -113,7 +113,7 @@ fn format_path(file: &Path, base_dir: &Path, out_dir: &Path, lang: Lang, preserv
         Ok(out_dir
             .components()
             // This should never panic
-            .chain(vec![Component::Normal(file.file_stem().unwrap())].into_iter())
+            .chain(vec![Component::Normal(file.file_name().unwrap())].into_iter())
             .collect::<PathBuf>()
             .with_extension(extension(lang)))
     }
-- 
2.43.0

