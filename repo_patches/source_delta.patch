From 6580ddab36aabb0c65a47b00f0634324bd621a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:25 +0000
Subject: [PATCH 01/31] fix: generate WSDL port types in a stable order

---
 wsdl-parser/src/generator/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/wsdl-parser/src/generator/mod.rs b/wsdl-parser/src/generator/mod.rs
index fe1858f..1510eb3 100644
--- a/wsdl-parser/src/generator/mod.rs
+++ b/wsdl-parser/src/generator/mod.rs
@@ -10,7 +10,11 @@ pub mod function;
 pub fn generate(definitions: &Definitions) -> String {
     let mut res = vec![];
 
-    for port_type in definitions.port_types().values() {
+    // HashMap iteration order is unspecified: emit port types in a stable order.
+    let mut port_types = definitions.port_types().values().collect::<Vec<_>>();
+    port_types.sort_by_key(|port_type| port_type.name());
+
+    for port_type in port_types {
         for op in port_type.operations() {
             let func = Function::new(op, definitions);
             res.push(generate_function(&func, definitions.target_namespace()));
-- 
2.43.0


From 80da8ed599c241b971a63428667b041d34dfcbb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:45 +0000
Subject: [PATCH 02/31] fix: gDay, gMonth and gMonthDay parsing panicked on
 multi-byte characters

---
 xsd-types/src/types/gday.rs      | 2 +-
 xsd-types/src/types/gmonth.rs    | 2 +-
 xsd-types/src/types/gmonthday.rs | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/xsd-types/src/types/gday.rs b/xsd-types/src/types/gday.rs
index 74fcfe4..e7e050a 100644
--- a/xsd-types/src/types/gday.rs
+++ b/xsd-types/src/types/gday.rs
@@ -31,7 +31,7 @@ impl FromStr for GDay {
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         fn parse_value(s: &str) -> Result<i32, String> {
-            if s.len() != 5 || &s[0..3] != "---" {
+            if !s.is_ascii() || s.len() != 5 || &s[0..3] != "---" {
                 return Err("bad gDay format".to_string());
             }
             let token = &s[3..5];
diff --git a/xsd-types/src/types/gmonth.rs b/xsd-types/src/types/gmonth.rs
index 2ce2ca3..eb714e8 100644
--- a/xsd-types/src/types/gmonth.rs
+++ b/xsd-types/src/types/gmonth.rs
@@ -31,7 +31,7 @@ impl FromStr for GMonth {
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         fn parse_value(s: &str) -> Result<i32, String> {
-            if s.len() != 4 || &s[0..2] != "--" {
+            if !s.is_ascii() || s.len() != 4 || &s[0..2] != "--" {
                 return Err("bad gMonth format".to_string());
             }
             let token = &s[2..4];
diff --git a/xsd-types/src/types/gmonthday.rs b/xsd-types/src/types/gmonthday.rs
index 183c96a..2dfe516 100644
--- a/xsd-types/src/types/gmonthday.rs
+++ b/xsd-types/src/types/gmonthday.rs
@@ -50,7 +50,7 @@ impl FromStr for GMonthDay {
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         fn parse_value(s: &str) -> Result<(i32, i32), String> {
-            if s.len() != 7 || &s[0..2] != "--" || &s[4..5] != "-" {
+            if !s.is_ascii() || s.len() != 7 || &s[0..2] != "--" || &s[4..5] != "-" {
                 return Err("bad gMonthDay format".to_string());
             }
 
-- 
2.43.0


From 81a70703b543715525c756af09c0eaeab20d4423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:47 +0000
Subject: [PATCH 03/31] fix: parse_timezone panicked on empty and multi-byte
 designators

---
 xsd-types/src/types/utils.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/xsd-types/src/types/utils.rs b/xsd-types/src/types/utils.rs
index bb4dc88..a753066 100644
--- a/xsd-types/src/types/utils.rs
+++ b/xsd-types/src/types/utils.rs
@@ -6,7 +6,10 @@ pub fn parse_timezone(s: &str) -> Result<FixedOffset, String> {
         return Ok(FixedOffset::east_opt(0).unwrap());
     }
 
-    let tokens: Vec<&str> = s[1..].split(':').collect();
+    let offset = s.strip_prefix(|c| c == '+' || c == '-').ok_or_else(|| {
+        "bad timezone format: timezone should start with '+' or '-'".to_string()
+    })?;
+    let tokens: Vec<&str> = offset.split(':').collect();
     if tokens.len() != 2 || tokens[0].len() != 2 || tokens[1].len() != 2 {
         return Err("bad timezone format".to_string());
     }
-- 
2.43.0


From 2ce0bc54ab70bad3eaea9b88bc918724e0a39471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:47 +0000
Subject: [PATCH 04/31] fix: printing the most negative gYear and gYearMonth
 overflowed

---
 xsd-types/src/types/gyear.rs      | 4 ++--
 xsd-types/src/types/gyearmonth.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/xsd-types/src/types/gyear.rs b/xsd-types/src/types/gyear.rs
index 7943e8b..a9572d7 100644
--- a/xsd-types/src/types/gyear.rs
+++ b/xsd-types/src/types/gyear.rs
@@ -88,8 +88,8 @@ impl fmt::Display for GYear {
             }
         } else {
             match self.timezone {
-                Some(tz) => write!(f, "-{:04}{}", -self.value, tz),
-                None => write!(f, "-{:04}", -self.value),
+                Some(tz) => write!(f, "-{:04}{}", self.value.unsigned_abs(), tz),
+                None => write!(f, "-{:04}", self.value.unsigned_abs()),
             }
         }
     }
diff --git a/xsd-types/src/types/gyearmonth.rs b/xsd-types/src/types/gyearmonth.rs
index 38a3a09..efc05fa 100644
--- a/xsd-types/src/types/gyearmonth.rs
+++ b/xsd-types/src/types/gyearmonth.rs
@@ -117,8 +117,8 @@ impl fmt::Display for GYearMonth {
             }
         } else {
             match self.timezone {
-                Some(tz) => write!(f, "-{:04}-{:02}{}", -self.year, self.month, tz),
-                None => write!(f, "-{:04}-{:02}", -self.year, self.month),
+                Some(tz) => write!(f, "-{:04}-{:02}{}", self.year.unsigned_abs(), self.month, tz),
+                None => write!(f, "-{:04}-{:02}", self.year.unsigned_abs(), self.month),
             }
         }
     }
-- 
2.43.0


From e9cc37030300b5a56f055fd3ad9392f7b96ecbc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:47 +0000
Subject: [PATCH 05/31] fix: Duration parsing overflowed on long numbers

---
 xsd-types/src/types/duration.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/xsd-types/src/types/duration.rs b/xsd-types/src/types/duration.rs
index e352b9c..b823b0e 100644
--- a/xsd-types/src/types/duration.rs
+++ b/xsd-types/src/types/duration.rs
@@ -175,15 +175,20 @@ impl FromStr for Duration {
                         return Err("Incorrect character occurred".into());
                     }
 
+                    let digit = digit.to_digit(10).expect("error converting a digit") as u64;
+                    let append = |n: u64| n.checked_mul(10).and_then(|n| n.checked_add(digit));
+
                     if context.is_dot_found {
-                        context.numer *= 10;
-                        context.numer +=
-                            digit.to_digit(10).expect("error converting a digit") as u64;
-                        context.denom *= 10;
+                        // Digits that do not fit are far below the precision of the seconds.
+                        if let (Some(numer), Some(denom)) =
+                            (append(context.numer), context.denom.checked_mul(10))
+                        {
+                            context.numer = numer;
+                            context.denom = denom;
+                        }
                     } else {
-                        context.number *= 10;
-                        context.number +=
-                            digit.to_digit(10).expect("error converting a digit") as u64;
+                        context.number =
+                            append(context.number).ok_or("Number is too large for a component")?;
                         context.is_number_empty = false;
                     }
                 }
-- 
2.43.0


From 288ab314df446b537bd7ae5f233a715455fbe99f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:48 +0000
Subject: [PATCH 06/31] fix: Duration parsing accepted a zero without its
 designator

---
 xsd-types/src/types/duration.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xsd-types/src/types/duration.rs b/xsd-types/src/types/duration.rs
index b823b0e..0b71ff4 100644
--- a/xsd-types/src/types/duration.rs
+++ b/xsd-types/src/types/duration.rs
@@ -123,7 +123,7 @@ impl FromStr for Duration {
                         return Err("Symbol 'T' occurred twice".into());
                     }
 
-                    if context.number > 0 {
+                    if !context.is_number_empty {
                         return Err("Symbol 'T' occurred after a number".into());
                     }
 
@@ -195,7 +195,7 @@ impl FromStr for Duration {
             }
         }
 
-        if context.number > 0 {
+        if !context.is_number_empty {
             return Err("Number at the end of the string".into());
         }
 
-- 
2.43.0


From 7e57658420a9fc7c78fb72c08c3a179a7c62e284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:01 +0000
Subject: [PATCH 07/31] fix: Duration::to_std_duration overflowed and ignored
 the sign

---
 xsd-types/src/types/duration.rs | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/xsd-types/src/types/duration.rs b/xsd-types/src/types/duration.rs
index 0b71ff4..fc26156 100644
--- a/xsd-types/src/types/duration.rs
+++ b/xsd-types/src/types/duration.rs
@@ -19,13 +19,23 @@ impl Duration {
     pub fn to_std_duration(&self) -> Result<std::time::Duration, String> {
         if self.years > 0 || self.months > 0 {
             Err("Duration with months or years require a starting date to be converted".into())
+        } else if self.is_negative {
+            Err("Negative durations can not be converted".into())
         } else {
-            let secs = self.seconds as u64;
-
-            let nanos = ((self.seconds - secs as f64) * 1e9) as u32;
-            let secs = secs + 60 * (self.minutes + 60 * (self.hours + 24 * self.days));
-
-            Ok(std::time::Duration::new(secs, nanos))
+            let scale = |value: u64, factor: u64, addend: u64| {
+                value
+                    .checked_mul(factor)
+                    .and_then(|v| v.checked_add(addend))
+                    .ok_or_else(|| "Duration is too large to be converted".to_string())
+            };
+            let hours = scale(self.days, 24, self.hours)?;
+            let minutes = scale(hours, 60, self.minutes)?;
+            let secs = scale(minutes, 60, 0)?;
+
+            std::time::Duration::try_from_secs_f64(self.seconds)
+                .map_err(|e| e.to_string())?
+                .checked_add(std::time::Duration::from_secs(secs))
+                .ok_or_else(|| "Duration is too large to be converted".to_string())
         }
     }
 
-- 
2.43.0


From 37f195eaa034e8ddd61cd84ece28ad576a2078fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:51 +0000
Subject: [PATCH 08/31] fix: an element with minOccurs 0 and maxOccurs 1 was
 generated as required

---
 xsd-parser/src/parser/element.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xsd-parser/src/parser/element.rs b/xsd-parser/src/parser/element.rs
index 19d5cbd..6118d7d 100644
--- a/xsd-parser/src/parser/element.rs
+++ b/xsd-parser/src/parser/element.rs
@@ -150,7 +150,7 @@ pub fn element_modifier(node: &Node) -> TypeModifier {
                 if val > 1 {
                     TypeModifier::Array
                 } else {
-                    TypeModifier::None
+                    TypeModifier::Option
                 }
             }
         },
-- 
2.43.0


From 199740805d38d66516559a7ecc8619c8c4a3eff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:41 +0000
Subject: [PATCH 09/31] fix: generating code changed the type names of the
 model

---
 xsd-parser/src/generator/struct.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/xsd-parser/src/generator/struct.rs b/xsd-parser/src/generator/struct.rs
index af01513..391769a 100644
--- a/xsd-parser/src/generator/struct.rs
+++ b/xsd-parser/src/generator/struct.rs
@@ -21,17 +21,17 @@ pub trait StructGenerator {
     fn fields(&self, entity: &Struct, gen: &Generator) -> String {
         let mod_name = self.mod_name(entity, gen);
 
-        entity.fields.borrow_mut().iter_mut().for_each(|f| {
-            if !f.subtypes.is_empty() {
-                f.type_name = format!("{}::{}", mod_name, f.type_name)
-            }
-        });
-
         let fields = entity
             .fields
             .borrow()
             .iter()
-            .map(|f| gen.struct_field_gen().generate(f, gen))
+            .map(|f| {
+                let mut f = f.clone();
+                if !f.subtypes.is_empty() {
+                    f.type_name = format!("{}::{}", mod_name, f.type_name)
+                }
+                gen.struct_field_gen().generate(&f, gen)
+            })
             .filter(|s| !s.is_empty())
             .collect::<Vec<String>>()
             .join("\n\n");
-- 
2.43.0


From 08ad2a0e21303e48feacb4d9d68d909e425b88b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:42 +0000
Subject: [PATCH 10/31] fix: the reserved word try was used as an identifier

---
 wsdl-parser/src/generator/mod.rs  | 1 +
 xsd-parser/src/generator/utils.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/wsdl-parser/src/generator/mod.rs b/wsdl-parser/src/generator/mod.rs
index 1510eb3..64048f0 100644
--- a/wsdl-parser/src/generator/mod.rs
+++ b/wsdl-parser/src/generator/mod.rs
@@ -182,6 +182,7 @@ const RS_KEYWORDS: &[&str] = &[
     "super",
     "trait",
     "true",
+    "try",
     "type",
     "typeof",
     "unsafe",
diff --git a/xsd-parser/src/generator/utils.rs b/xsd-parser/src/generator/utils.rs
index ed94780..308444c 100644
--- a/xsd-parser/src/generator/utils.rs
+++ b/xsd-parser/src/generator/utils.rs
@@ -169,6 +169,7 @@ const RS_KEYWORDS: &[&str] = &[
     "super",
     "trait",
     "true",
+    "try",
     "type",
     "typeof",
     "unsafe",
-- 
2.43.0


From 70fdabafa10a430d812fd49c80d5a87010115af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:42 +0000
Subject: [PATCH 11/31] fix: parse panicked on malformed XML instead of
 returning an error

---
 xsd-parser/src/parser/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xsd-parser/src/parser/mod.rs b/xsd-parser/src/parser/mod.rs
index e03275f..d45660e 100644
--- a/xsd-parser/src/parser/mod.rs
+++ b/xsd-parser/src/parser/mod.rs
@@ -33,7 +33,7 @@ use crate::parser::{
 // FIXME: Actually pass up errors
 #[allow(clippy::result_unit_err)]
 pub fn parse(text: &str) -> Result<RsFile, ()> {
-    let doc = roxmltree::Document::parse(text).expect("Parse document error");
+    let doc = roxmltree::Document::parse(text).map_err(|_| ())?;
     let root = doc.root();
 
     let mut map = HashMap::new();
-- 
2.43.0


From cfcb2f6d777440faf500307cb8faae5615a122a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:58 +0000
Subject: [PATCH 12/31] fix: one-way operations were generated without a return
 type

---
 wsdl-parser/src/generator/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wsdl-parser/src/generator/mod.rs b/wsdl-parser/src/generator/mod.rs
index 64048f0..839374e 100644
--- a/wsdl-parser/src/generator/mod.rs
+++ b/wsdl-parser/src/generator/mod.rs
@@ -49,7 +49,8 @@ fn generate_function(func: &Function<'_>, target_ns: Option<&Namespace>) -> Stri
             .map(|p| format!("{}: &{}", p.name, ftype(p.typename)))
             .collect::<Vec<String>>()
             .join(",\n    "),
-        return_type = ftype(func.return_type),
+        return_type =
+            if func.return_type.is_empty() { "()".into() } else { ftype(func.return_type) },
         body = REQUEST_FUNC_BODY
     )
 }
-- 
2.43.0


From 83b97c2a7486ac45240a78b545048c561e39ecc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:01 +0000
Subject: [PATCH 13/31] fix: messages with a typed part or without parts made
 the service generator panic

---
 wsdl-parser/src/generator/function.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/wsdl-parser/src/generator/function.rs b/wsdl-parser/src/generator/function.rs
index 29c845c..bb4f4e3 100644
--- a/wsdl-parser/src/generator/function.rs
+++ b/wsdl-parser/src/generator/function.rs
@@ -29,14 +29,17 @@ impl<'a> Param<'a> {
     pub fn new(part: &'a Part<'_>) -> Self {
         Param {
             name: part.name(),
-            typename: part
-                .element()
-                .or_else(|| part.type_())
-                .expect("Element or type must be presented in wsdl:part"),
+            typename: part_type(part),
         }
     }
 }
 
+fn part_type<'a>(part: &'a Part<'_>) -> &'a str {
+    part.element()
+        .or_else(|| part.type_())
+        .expect("Element or type must be presented in wsdl:part")
+}
+
 impl<'a> Function<'a> {
     pub fn new(operation: &'a Operation<'_>, definitions: &'a Definitions<'_>) -> Self {
         let input_message;
@@ -55,7 +58,7 @@ impl<'a> Function<'a> {
         Function {
             generic_params: vec![GENERIC_TRANSPORT],
             arguments: get_input_params(input_message),
-            return_type: output_message.and_then(|m| m.parts()[0].element()).unwrap_or(""),
+            return_type: output_message.and_then(|m| m.parts().first()).map_or("", part_type),
             documentation: operation.documentation(),
             name: operation.name(),
         }
@@ -71,7 +74,7 @@ fn get_input_params<'a>(input: Option<&'a Message<'_>>) -> Vec<Param<'a>> {
 
     if input.parts().len() == 1 {
         // ONVIF case
-        result.push(Param { name: "request", typename: input.parts()[0].element().unwrap() })
+        result.push(Param { name: "request", typename: part_type(&input.parts()[0]) })
     } else {
         result.append(&mut input.parts().iter().map(Param::new).collect());
     };
-- 
2.43.0


From fe207201fb9d7b6af570d2425e7293bd0a3d7145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:49 +0000
Subject: [PATCH 14/31] fix: attribute group references next to a content model
 were lost, or the content model was

---
 xsd-parser/src/parser/complex_type.rs |  1 +
 xsd-parser/src/parser/extension.rs    | 11 +++--------
 xsd-parser/src/parser/restriction.rs  | 20 +++++++-------------
 3 files changed, 11 insertions(+), 21 deletions(-)

diff --git a/xsd-parser/src/parser/complex_type.rs b/xsd-parser/src/parser/complex_type.rs
index bed4dcc..2dbcd23 100644
--- a/xsd-parser/src/parser/complex_type.rs
+++ b/xsd-parser/src/parser/complex_type.rs
@@ -54,6 +54,7 @@ pub fn parse_complex_type(node: &Node, parent: &Node) -> RsEntity {
     match &mut res {
         RsEntity::Struct(st) => {
             st.fields.borrow_mut().append(&mut fields);
+            st.attribute_groups.borrow_mut().append(&mut attribute_groups_to_aliases(node));
             st.name = name.to_string();
         }
         RsEntity::Enum(en) => {
diff --git a/xsd-parser/src/parser/extension.rs b/xsd-parser/src/parser/extension.rs
index 1341b5a..0b78aaa 100644
--- a/xsd-parser/src/parser/extension.rs
+++ b/xsd-parser/src/parser/extension.rs
@@ -10,10 +10,8 @@ use crate::parser::{
     xsd_elements::{ElementType, ExtensionType, XsdNode},
 };
 
-const AVAILABLE_CONTENT_TYPES: [ElementType; 6] = [
+const AVAILABLE_CONTENT_TYPES: [ElementType; 4] = [
     ElementType::All, // Not presented in ONVIF
-    ElementType::Attribute,
-    ElementType::AttributeGroup,
     ElementType::Choice,
     ElementType::Group, // Not presented in ONVIF
     ElementType::Sequence,
@@ -64,17 +62,14 @@ fn complex_content_extension(node: &Node) -> RsEntity {
 
     let content = node
         .children()
-        .filter(|n| {
-            n.is_element()
-                && n.xsd_type() != ElementType::Attribute
-                && AVAILABLE_CONTENT_TYPES.contains(&n.xsd_type())
-        })
+        .filter(|n| n.is_element() && AVAILABLE_CONTENT_TYPES.contains(&n.xsd_type()))
         .last();
 
     if let Some(cont) = content {
         let mut res = parse_node(&cont, node);
         if let RsEntity::Struct(s) = &mut res {
             s.fields.borrow_mut().append(&mut fields);
+            s.attribute_groups.borrow_mut().append(&mut attribute_groups_to_aliases(node));
             s.comment = get_documentation(node);
             return res;
         }
diff --git a/xsd-parser/src/parser/restriction.rs b/xsd-parser/src/parser/restriction.rs
index 76eb173..9ca8e61 100644
--- a/xsd-parser/src/parser/restriction.rs
+++ b/xsd-parser/src/parser/restriction.rs
@@ -16,14 +16,11 @@ use crate::parser::{
     xsd_elements::{ElementType, FacetType, RestrictionType, XsdNode},
 };
 
-const AVAILABLE_CONTENT_TYPES: [ElementType; 7] = [
-    ElementType::All, // Not presented in ONVIF
-    ElementType::AnyAttribute,
-    ElementType::Attribute,
-    ElementType::AttributeGroup, // Not presented in ONVIF
-    ElementType::Choice,         // Not presented in ONVIF
-    ElementType::Group,          // Not presented in ONVIF
-    ElementType::Sequence,       // Not presented in ONVIF
+const AVAILABLE_CONTENT_TYPES: [ElementType; 4] = [
+    ElementType::All,      // Not presented in ONVIF
+    ElementType::Choice,   // Not presented in ONVIF
+    ElementType::Group,    // Not presented in ONVIF
+    ElementType::Sequence, // Not presented in ONVIF
 ];
 
 pub fn parse_restriction(node: &Node, _: &Node) -> RsEntity {
@@ -76,11 +73,7 @@ fn complex_content_restriction(node: &Node) -> RsEntity {
 
     let content = node
         .children()
-        .filter(|n| {
-            n.is_element()
-                && n.xsd_type() != ElementType::Attribute
-                && AVAILABLE_CONTENT_TYPES.contains(&n.xsd_type())
-        })
+        .filter(|n| n.is_element() && AVAILABLE_CONTENT_TYPES.contains(&n.xsd_type()))
         .last();
 
     if let Some(cont) = content {
@@ -88,6 +81,7 @@ fn complex_content_restriction(node: &Node) -> RsEntity {
         if let RsEntity::Struct(s) = &mut res {
             s.comment = get_documentation(node);
             s.fields.borrow_mut().append(&mut fields);
+            s.attribute_groups.borrow_mut().append(&mut attribute_groups_to_aliases(node));
             return res;
         }
     }
-- 
2.43.0


From 8debf16c0a2b257a8260c7ad669cf78d5fb28ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:51 +0000
Subject: [PATCH 15/31] fix: a nested type derived from its enclosing type made
 the parser panic

---
 xsd-parser/src/parser/types.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/xsd-parser/src/parser/types.rs b/xsd-parser/src/parser/types.rs
index 1a88243..38823fb 100644
--- a/xsd-parser/src/parser/types.rs
+++ b/xsd-parser/src/parser/types.rs
@@ -36,7 +36,7 @@ impl Struct {
     }
 
     pub fn extend_base(&self, types: &HashMap<&String, &Self>) {
-        self.fields.borrow_mut().iter_mut().for_each(|f| f.extend_base(types));
+        self.fields.borrow().iter().for_each(|f| f.extend_base(types));
 
         let mut fields = self
             .fields
@@ -90,8 +90,8 @@ pub struct StructField {
 }
 
 impl StructField {
-    pub fn extend_base(&mut self, types: &HashMap<&String, &Struct>) {
-        for subtype in &mut self.subtypes {
+    pub fn extend_base(&self, types: &HashMap<&String, &Struct>) {
+        for subtype in &self.subtypes {
             if let RsEntity::Struct(st) = subtype {
                 st.extend_base(types);
             }
-- 
2.43.0


From 6e79d012098f5609c04d662265e4fb6353fcf730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:10 +0000
Subject: [PATCH 16/31] fix: fields of a base declared after its derived type
 were lost

---
 xsd-parser/src/parser/types.rs | 39 ++++++++++++++++++++++------------
 1 file changed, 25 insertions(+), 14 deletions(-)

diff --git a/xsd-parser/src/parser/types.rs b/xsd-parser/src/parser/types.rs
index 38823fb..3729a6a 100644
--- a/xsd-parser/src/parser/types.rs
+++ b/xsd-parser/src/parser/types.rs
@@ -36,26 +36,37 @@ impl Struct {
     }
 
     pub fn extend_base(&self, types: &HashMap<&String, &Self>) {
-        self.fields.borrow().iter().for_each(|f| f.extend_base(types));
-
-        let mut fields = self
+        // The placeholders are taken out first: types that refer to each other are extended once.
+        let bases = self
             .fields
             .borrow()
             .iter()
             .filter(|f| f.name.as_str() == tag::BASE)
-            .flat_map(|f| {
-                let key = f.type_name.split(':').last().unwrap().to_string();
-                types.get(&key).map(|s| s.fields.borrow().clone()).unwrap_or_default()
-            })
-            .filter(|f| {
-                //TODO: remove this workaround for fields names clash
-                !self.fields.borrow().iter().any(|field| field.name == f.name)
-            })
-            .collect::<Vec<StructField>>();
+            .map(|f| f.type_name.split(':').last().unwrap().to_string())
+            .collect::<Vec<String>>();
 
-        self.fields.borrow_mut().append(&mut fields);
+        if !bases.is_empty() {
+            self.fields.borrow_mut().retain(|field| field.name.as_str() != tag::BASE);
+        }
 
-        self.fields.borrow_mut().retain(|field| field.name.as_str() != tag::BASE);
+        for base in bases.iter().filter_map(|key| types.get(key)) {
+            base.extend_base(types);
+
+            let mut fields = base
+                .fields
+                .borrow()
+                .iter()
+                .filter(|f| {
+                    //TODO: remove this workaround for fields names clash
+                    !self.fields.borrow().iter().any(|field| field.name == f.name)
+                })
+                .cloned()
+                .collect::<Vec<StructField>>();
+
+            self.fields.borrow_mut().append(&mut fields);
+        }
+
+        self.fields.borrow().iter().for_each(|f| f.extend_base(types));
 
         for subtype in &self.subtypes {
             if let RsEntity::Struct(s) = subtype {
-- 
2.43.0


From f51bb4fcdb5bf230089356807a028ee4b01853a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:44 +0000
Subject: [PATCH 17/31] fix: a type extending a type with the name of an
 attribute group got the group's attributes instead

---
 xsd-parser/src/parser/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/xsd-parser/src/parser/mod.rs b/xsd-parser/src/parser/mod.rs
index d45660e..6b531bf 100644
--- a/xsd-parser/src/parser/mod.rs
+++ b/xsd-parser/src/parser/mod.rs
@@ -37,6 +37,7 @@ pub fn parse(text: &str) -> Result<RsFile, ()> {
     let root = doc.root();
 
     let mut map = HashMap::new();
+    let mut groups = HashMap::new();
 
     let schema =
         root.children().filter(|e| e.is_element()).last().expect("Schema element is required");
@@ -49,13 +50,13 @@ pub fn parse(text: &str) -> Result<RsFile, ()> {
     }
     for ag in &schema_rs.attribute_groups {
         if let RsEntity::Struct(st) = ag {
-            map.extend(st.get_types_map());
+            groups.extend(st.get_types_map());
         }
     }
     for ty in &schema_rs.types {
         if let RsEntity::Struct(st) = ty {
             st.extend_base(&map);
-            st.extend_attribute_group(&map);
+            st.extend_attribute_group(&groups);
         }
     }
 
-- 
2.43.0


From 6a958e99ec46d24091e794739ced7bfe3e596a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:46 +0000
Subject: [PATCH 18/31] fix: attributes of a base's attribute groups were
 duplicated or lost in derived types

---
 xsd-parser/src/parser/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/xsd-parser/src/parser/mod.rs b/xsd-parser/src/parser/mod.rs
index 6b531bf..ad618f2 100644
--- a/xsd-parser/src/parser/mod.rs
+++ b/xsd-parser/src/parser/mod.rs
@@ -55,10 +55,14 @@ pub fn parse(text: &str) -> Result<RsFile, ()> {
     }
     for ty in &schema_rs.types {
         if let RsEntity::Struct(st) = ty {
-            st.extend_base(&map);
             st.extend_attribute_group(&groups);
         }
     }
+    for ty in &schema_rs.types {
+        if let RsEntity::Struct(st) = ty {
+            st.extend_base(&map);
+        }
+    }
 
     Ok(schema_rs)
 }
-- 
2.43.0


From 27d1efddf524426e0d68e75ac26ad438aa21c81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:06 +0000
Subject: [PATCH 19/31] fix: attribute group references of nested types were
 ignored

---
 xsd-parser/src/parser/types.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/xsd-parser/src/parser/types.rs b/xsd-parser/src/parser/types.rs
index 3729a6a..60d964c 100644
--- a/xsd-parser/src/parser/types.rs
+++ b/xsd-parser/src/parser/types.rs
@@ -87,6 +87,14 @@ impl Struct {
             .collect::<Vec<StructField>>();
 
         self.fields.borrow_mut().append(&mut fields);
+
+        self.fields.borrow().iter().for_each(|f| f.extend_attribute_group(types));
+
+        for subtype in &self.subtypes {
+            if let RsEntity::Struct(s) = subtype {
+                s.extend_attribute_group(types);
+            }
+        }
     }
 }
 
@@ -108,6 +116,14 @@ impl StructField {
             }
         }
     }
+
+    pub fn extend_attribute_group(&self, types: &HashMap<&String, &Struct>) {
+        for subtype in &self.subtypes {
+            if let RsEntity::Struct(st) = subtype {
+                st.extend_attribute_group(types);
+            }
+        }
+    }
 }
 
 #[allow(clippy::upper_case_acronyms)]
-- 
2.43.0


From 076fdde8c61d41f90026ba5165f4ea1574af27c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:20 +0000
Subject: [PATCH 20/31] fix: types with a choice content were left out when
 bases and attribute groups were resolved

---
 xsd-parser/src/parser/mod.rs   |  6 +++---
 xsd-parser/src/parser/types.rs | 21 +++++++++++++++------
 2 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/xsd-parser/src/parser/mod.rs b/xsd-parser/src/parser/mod.rs
index ad618f2..38a4afa 100644
--- a/xsd-parser/src/parser/mod.rs
+++ b/xsd-parser/src/parser/mod.rs
@@ -44,7 +44,7 @@ pub fn parse(text: &str) -> Result<RsFile, ()> {
 
     let schema_rs = parse_schema(&schema);
     for ty in &schema_rs.types {
-        if let RsEntity::Struct(st) = ty {
+        for st in ty.structs() {
             map.extend(st.get_types_map());
         }
     }
@@ -54,12 +54,12 @@ pub fn parse(text: &str) -> Result<RsFile, ()> {
         }
     }
     for ty in &schema_rs.types {
-        if let RsEntity::Struct(st) = ty {
+        for st in ty.structs() {
             st.extend_attribute_group(&groups);
         }
     }
     for ty in &schema_rs.types {
-        if let RsEntity::Struct(st) = ty {
+        for st in ty.structs() {
             st.extend_base(&map);
         }
     }
diff --git a/xsd-parser/src/parser/types.rs b/xsd-parser/src/parser/types.rs
index 60d964c..d5319db 100644
--- a/xsd-parser/src/parser/types.rs
+++ b/xsd-parser/src/parser/types.rs
@@ -69,8 +69,8 @@ impl Struct {
         self.fields.borrow().iter().for_each(|f| f.extend_base(types));
 
         for subtype in &self.subtypes {
-            if let RsEntity::Struct(s) = subtype {
-                s.extend_base(types);
+            for st in subtype.structs() {
+                st.extend_base(types);
             }
         }
     }
@@ -91,8 +91,8 @@ impl Struct {
         self.fields.borrow().iter().for_each(|f| f.extend_attribute_group(types));
 
         for subtype in &self.subtypes {
-            if let RsEntity::Struct(s) = subtype {
-                s.extend_attribute_group(types);
+            for st in subtype.structs() {
+                st.extend_attribute_group(types);
             }
         }
     }
@@ -111,7 +111,7 @@ pub struct StructField {
 impl StructField {
     pub fn extend_base(&self, types: &HashMap<&String, &Struct>) {
         for subtype in &self.subtypes {
-            if let RsEntity::Struct(st) = subtype {
+            for st in subtype.structs() {
                 st.extend_base(types);
             }
         }
@@ -119,7 +119,7 @@ impl StructField {
 
     pub fn extend_attribute_group(&self, types: &HashMap<&String, &Struct>) {
         for subtype in &self.subtypes {
-            if let RsEntity::Struct(st) = subtype {
+            for st in subtype.structs() {
                 st.extend_attribute_group(types);
             }
         }
@@ -219,6 +219,15 @@ pub enum RsEntity {
 }
 
 impl RsEntity {
+    /// The struct, or the structs that belong to an enum.
+    pub fn structs(&self) -> Vec<&Struct> {
+        match self {
+            RsEntity::Struct(st) => vec![st],
+            RsEntity::Enum(en) => en.subtypes.iter().flat_map(|s| s.structs()).collect(),
+            _ => vec![],
+        }
+    }
+
     pub fn name(&self) -> &str {
         use RsEntity::*;
         match self {
-- 
2.43.0


From c8d718f1a76f27b4c18daf81eeff2857374b88be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:49 +0000
Subject: [PATCH 21/31] fix: a choice inside a sequence was serialised as an
 element of its own

---
 xsd-parser/src/parser/utils.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/xsd-parser/src/parser/utils.rs b/xsd-parser/src/parser/utils.rs
index 4f35e01..09911a0 100644
--- a/xsd-parser/src/parser/utils.rs
+++ b/xsd-parser/src/parser/utils.rs
@@ -5,7 +5,7 @@ use roxmltree::{Namespace, Node};
 use crate::parser::{
     constants::attribute,
     node_parser::parse_node,
-    types::{Alias, Enum, RsEntity, StructField, StructFieldSource},
+    types::{Alias, Enum, EnumSource, RsEntity, StructField, StructFieldSource},
     xsd_elements::{ElementType, XsdNode},
 };
 
@@ -69,11 +69,16 @@ pub fn attribute_groups_to_aliases(node: &Node) -> Vec<Alias> {
 }
 
 pub fn enum_to_field(en: Enum) -> StructField {
+    let source = match en.source {
+        EnumSource::Choice => StructFieldSource::Choice,
+        _ => StructFieldSource::Element,
+    };
+
     StructField {
         name: en.name.clone(),
         type_name: en.name.clone(),
         subtypes: vec![RsEntity::Enum(en)],
-        source: StructFieldSource::Element,
+        source,
         ..Default::default()
     }
 }
-- 
2.43.0


From 08f0929366a9997114dec6e34dc25c068acfaf27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:51 +0000
Subject: [PATCH 22/31] fix: the choice of a type derived by extension or
 restriction was lost

---
 xsd-parser/src/parser/extension.rs   | 9 ++++++++-
 xsd-parser/src/parser/restriction.rs | 8 ++++++--
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/xsd-parser/src/parser/extension.rs b/xsd-parser/src/parser/extension.rs
index 0b78aaa..dc01885 100644
--- a/xsd-parser/src/parser/extension.rs
+++ b/xsd-parser/src/parser/extension.rs
@@ -6,7 +6,10 @@ use crate::parser::{
     constants::{attribute, tag},
     node_parser::parse_node,
     types::{RsEntity, Struct, StructField, StructFieldSource},
-    utils::{attribute_groups_to_aliases, attributes_to_fields, get_base, get_documentation},
+    utils::{
+        attribute_groups_to_aliases, attributes_to_fields, enum_to_field, get_base,
+        get_documentation, get_parent_name,
+    },
     xsd_elements::{ElementType, ExtensionType, XsdNode},
 };
 
@@ -73,6 +76,10 @@ fn complex_content_extension(node: &Node) -> RsEntity {
             s.comment = get_documentation(node);
             return res;
         }
+        if let RsEntity::Enum(mut en) = res {
+            en.name = format!("{}Choice", get_parent_name(node));
+            fields.push(enum_to_field(en));
+        }
     }
 
     RsEntity::Struct(Struct {
diff --git a/xsd-parser/src/parser/restriction.rs b/xsd-parser/src/parser/restriction.rs
index 9ca8e61..5d5a292 100644
--- a/xsd-parser/src/parser/restriction.rs
+++ b/xsd-parser/src/parser/restriction.rs
@@ -10,8 +10,8 @@ use crate::parser::{
         TupleStruct,
     },
     utils::{
-        attribute_groups_to_aliases, attributes_to_fields, get_base, get_documentation,
-        get_parent_name,
+        attribute_groups_to_aliases, attributes_to_fields, enum_to_field, get_base,
+        get_documentation, get_parent_name,
     },
     xsd_elements::{ElementType, FacetType, RestrictionType, XsdNode},
 };
@@ -84,6 +84,10 @@ fn complex_content_restriction(node: &Node) -> RsEntity {
             s.attribute_groups.borrow_mut().append(&mut attribute_groups_to_aliases(node));
             return res;
         }
+        if let RsEntity::Enum(mut en) = res {
+            en.name = format!("{}Choice", get_parent_name(node));
+            fields.push(enum_to_field(en));
+        }
     }
 
     RsEntity::Struct(Struct {
-- 
2.43.0


From ae065c451911c7d48252c26720dfa025fd4680b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:30 +0000
Subject: [PATCH 23/31] fix: fields whose type name only ends with the name of
 the enclosing type were generated as repeated

---
 xsd-parser/src/parser/all.rs      | 2 +-
 xsd-parser/src/parser/sequence.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/xsd-parser/src/parser/all.rs b/xsd-parser/src/parser/all.rs
index 04d3e9b..4f4375f 100644
--- a/xsd-parser/src/parser/all.rs
+++ b/xsd-parser/src/parser/all.rs
@@ -26,7 +26,7 @@ fn elements_to_fields(choice: &Node, parent_name: &str) -> Vec<StructField> {
         .filter(|n| n.is_element() && n.xsd_type() != ElementType::Annotation)
         .map(|n| match parse_node(&n, choice) {
             RsEntity::StructField(mut sf) => {
-                if sf.type_name.ends_with(parent_name) {
+                if sf.type_name.split(':').last() == Some(parent_name) {
                     sf.type_modifiers.push(TypeModifier::Recursive)
                 }
                 sf
diff --git a/xsd-parser/src/parser/sequence.rs b/xsd-parser/src/parser/sequence.rs
index 48b8a19..bdbec4b 100644
--- a/xsd-parser/src/parser/sequence.rs
+++ b/xsd-parser/src/parser/sequence.rs
@@ -26,7 +26,7 @@ fn elements_to_fields(sequence: &Node, parent_name: &str) -> Vec<StructField> {
         .filter(|n| n.is_element() && n.xsd_type() != ElementType::Annotation)
         .map(|n| match parse_node(&n, sequence) {
             RsEntity::StructField(mut sf) => {
-                if sf.type_name.ends_with(parent_name) {
+                if sf.type_name.split(':').last() == Some(parent_name) {
                     sf.type_modifiers.push(TypeModifier::Recursive)
                 }
                 sf
-- 
2.43.0


From d35e25f001d15deddc1a7c4b0d20e94848d2a5eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:59 +0000
Subject: [PATCH 24/31] fix: the documentation of types and global elements and
 attributes was lost

---
 xsd-parser/src/parser/attribute.rs    | 9 ++++++++-
 xsd-parser/src/parser/complex_type.rs | 1 +
 xsd-parser/src/parser/element.rs      | 3 +++
 3 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/xsd-parser/src/parser/attribute.rs b/xsd-parser/src/parser/attribute.rs
index 9d7ef18..60344a1 100644
--- a/xsd-parser/src/parser/attribute.rs
+++ b/xsd-parser/src/parser/attribute.rs
@@ -62,10 +62,17 @@ fn parse_global_attribute(node: &Node) -> RsEntity {
     {
         let mut entity = parse_node(&content, node);
         entity.set_name(name);
+        if let Some(comment) = get_documentation(node) {
+            entity.set_comment(Some(comment));
+        }
         return entity;
     }
 
-    RsEntity::Struct(Struct { name: name.to_string(), ..Default::default() })
+    RsEntity::Struct(Struct {
+        name: name.to_string(),
+        comment: get_documentation(node),
+        ..Default::default()
+    })
 }
 
 #[cfg(test)]
diff --git a/xsd-parser/src/parser/complex_type.rs b/xsd-parser/src/parser/complex_type.rs
index 2dbcd23..d31c620 100644
--- a/xsd-parser/src/parser/complex_type.rs
+++ b/xsd-parser/src/parser/complex_type.rs
@@ -56,6 +56,7 @@ pub fn parse_complex_type(node: &Node, parent: &Node) -> RsEntity {
             st.fields.borrow_mut().append(&mut fields);
             st.attribute_groups.borrow_mut().append(&mut attribute_groups_to_aliases(node));
             st.name = name.to_string();
+            st.comment = get_documentation(node).or_else(|| st.comment.take());
         }
         RsEntity::Enum(en) => {
             en.name = format!("{}Choice", name);
diff --git a/xsd-parser/src/parser/element.rs b/xsd-parser/src/parser/element.rs
index 6118d7d..94ee2b6 100644
--- a/xsd-parser/src/parser/element.rs
+++ b/xsd-parser/src/parser/element.rs
@@ -128,6 +128,9 @@ fn parse_global_element(node: &Node) -> RsEntity {
     if let Some(content) = content_node {
         let mut content_entity = parse_node(&content, node);
         content_entity.set_name(name);
+        if let Some(comment) = get_documentation(node) {
+            content_entity.set_comment(Some(comment));
+        }
         return content_entity;
     }
 
-- 
2.43.0


From 3919a01c271865be6b539773ad8528544c7dac60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:10 +0000
Subject: [PATCH 25/31] fix: keep prefixes used as module names valid Rust
 identifiers

---
 xsd-parser/src/generator/default.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xsd-parser/src/generator/default.rs b/xsd-parser/src/generator/default.rs
index 35bae27..a329c69 100644
--- a/xsd-parser/src/generator/default.rs
+++ b/xsd-parser/src/generator/default.rs
@@ -27,7 +27,8 @@ pub fn default_format_type(type_name: &str, target_ns: &Option<Namespace>) -> Co
 
     let pascalized_name = filter_type_name(to_pascal_case(name).as_str());
 
-    let qname = |prefix| format!("{}::{}", prefix, pascalized_name);
+    let qname =
+        |prefix: &str| format!("{}::{}", sanitize(filter_type_name(prefix)), pascalized_name);
 
     let res = match (prefix, option_tns) {
         (Some(ns), Some(tns)) => {
-- 
2.43.0


From 9142b8927bd3af70134cd317a3a82dc314058f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:12 +0000
Subject: [PATCH 26/31] fix: case names taken from a foreign prefix are made
 valid Rust identifiers

---
 xsd-parser/src/generator/enum_case.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/xsd-parser/src/generator/enum_case.rs b/xsd-parser/src/generator/enum_case.rs
index a5580db..addbbc9 100644
--- a/xsd-parser/src/generator/enum_case.rs
+++ b/xsd-parser/src/generator/enum_case.rs
@@ -1,5 +1,9 @@
 use crate::{
-    generator::{default::default_format_type, utils::split_name, Generator},
+    generator::{
+        default::default_format_type,
+        utils::{sanitize, split_name},
+        Generator,
+    },
     parser::types::{EnumCase, EnumSource},
 };
 
@@ -21,11 +25,12 @@ pub trait EnumCaseGenerator {
     }
 
     fn get_name(&self, entity: &EnumCase, gen: &Generator) -> String {
-        default_format_type(entity.name.as_str(), &gen.target_ns.borrow())
+        let name = default_format_type(entity.name.as_str(), &gen.target_ns.borrow())
             .split("::")
             .last()
             .unwrap()
-            .to_string()
+            .to_string();
+        sanitize(name)
     }
 
     fn get_type_name(&self, entity: &EnumCase, gen: &Generator) -> String {
-- 
2.43.0


From 3398c94dd61762c100b7f34d266d6c682ba22a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:35 +0000
Subject: [PATCH 27/31] fix: prefixes used as module names by the service
 generator are valid Rust identifiers

---
 wsdl-parser/src/generator/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wsdl-parser/src/generator/mod.rs b/wsdl-parser/src/generator/mod.rs
index 839374e..3e7e4da 100644
--- a/wsdl-parser/src/generator/mod.rs
+++ b/wsdl-parser/src/generator/mod.rs
@@ -88,7 +88,8 @@ fn default_format_type(type_name: &str, target_ns: Option<&Namespace>) -> Cow<'s
 
     let pascalized_name = filter_type_name(to_pascal_case(name).as_str());
 
-    let qname = |prefix| format!("{}::{}", prefix, pascalized_name);
+    let qname =
+        |prefix: &str| format!("{}::{}", sanitize(filter_type_name(prefix)), pascalized_name);
 
     let res = match (prefix, option_tns) {
         (Some(ns), Some(tns)) => {
-- 
2.43.0


From 57ac0972b5731e3c4a90fea5414b6762a360de65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:44 +0000
Subject: [PATCH 28/31] fix: reading a value returns the reader's error instead
 of treating malformed XML as empty text

---
 xsd-types/src/utils/yaserde.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/xsd-types/src/utils/yaserde.rs b/xsd-types/src/utils/yaserde.rs
index 6af7592..93d2a9e 100644
--- a/xsd-types/src/utils/yaserde.rs
+++ b/xsd-types/src/utils/yaserde.rs
@@ -39,9 +39,8 @@ pub fn deserialize<S, R: Read>(
         return Err("Start element not found".to_string());
     }
 
-    if let Ok(xml::reader::XmlEvent::Characters(ref text)) = reader.peek() {
-        de_fn(text)
-    } else {
-        de_fn("")
+    match reader.peek()? {
+        xml::reader::XmlEvent::Characters(text) => de_fn(text),
+        _ => de_fn(""),
     }
 }
-- 
2.43.0


From 8240803ab736de7d67cd7293ada5fc843bf5dc42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:00 +0000
Subject: [PATCH 29/31] fix: a union that matched no member writes back the
 text it holds

---
 xsd-macro-utils/src/union.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xsd-macro-utils/src/union.rs b/xsd-macro-utils/src/union.rs
index c809193..c4c6e80 100644
--- a/xsd-macro-utils/src/union.rs
+++ b/xsd-macro-utils/src/union.rs
@@ -69,7 +69,7 @@ pub fn serde(ast: &syn::DeriveInput) -> syn::Result<TokenStream> {
                 ::xsd_types::utils::yaserde::serialize(self, #struct_name_literal, writer, |s| {
                     match s {
                         #ser_variants
-                        #struct_name::__Unknown__(_) => "".to_string()
+                        #struct_name::__Unknown__(val) => val.to_string(),
                     }
                 })
             }
-- 
2.43.0


From 1e6c4ac8e369f90939d3ff6865d2b61ef5b47c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:02 +0000
Subject: [PATCH 30/31] fix: a list wrapper rejects text with an item its type
 does not accept instead of dropping the item

---
 xsd-macro-utils/src/tuple.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xsd-macro-utils/src/tuple.rs b/xsd-macro-utils/src/tuple.rs
index 0d2dc2f..c6d3066 100644
--- a/xsd-macro-utils/src/tuple.rs
+++ b/xsd-macro-utils/src/tuple.rs
@@ -28,8 +28,8 @@ fn from_str(ast: &syn::DeriveInput) -> syn::Result<TokenStream> {
         Type::Vec(subtype) => match Type::from_path(subtype) {
             Type::String(subtype) | Type::Struct(subtype) | Type::Simple(subtype) => quote! {
                 s.split_whitespace()
-                    .filter_map(|s| <#subtype as ::std::str::FromStr>::from_str(s).ok())
-                    .collect()
+                    .map(|s| <#subtype as ::std::str::FromStr>::from_str(s).map_err(|e| e.to_string()))
+                    .collect::<::std::result::Result<_, ::std::string::String>>()?
             },
             _ => return Err(syn::Error::new(subtype.span(), "Not implemented for this subtype")),
         },
-- 
2.43.0


From e536b5d0caa8ef8c018ad179daabaec5e82c7cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:44 +0000
Subject: [PATCH 31/31] fix: reject text after the fractional seconds of a
 duration

---
 xsd-types/src/types/duration.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xsd-types/src/types/duration.rs b/xsd-types/src/types/duration.rs
index fc26156..539fadd 100644
--- a/xsd-types/src/types/duration.rs
+++ b/xsd-types/src/types/duration.rs
@@ -101,6 +101,7 @@ impl FromStr for Duration {
             context.last_filled_component = 6;
             context.number = 0;
             context.is_number_empty = true;
+            context.is_dot_found = false;
 
             Ok(())
         }
-- 
2.43.0

