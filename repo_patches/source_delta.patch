From 1ed589ffc26852a3cbe5bdf04c6ca578c69fecf1 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:59 +0000
Subject: [PATCH 01/36] fix: report an error instead of looping forever when a
 document ends inside a struct

---
 yaserde_derive/src/de/expand_struct.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/yaserde_derive/src/de/expand_struct.rs b/yaserde_derive/src/de/expand_struct.rs
index fca7486..972bd4f 100644
--- a/yaserde_derive/src/de/expand_struct.rs
+++ b/yaserde_derive/src/de/expand_struct.rs
@@ -460,6 +460,10 @@ pub fn parse(
               if #flatten {
                 break;
               }
+
+              return ::std::result::Result::Err(
+                ::std::format!("End of document, missing some content ?"),
+              );
             }
             ::yaserde::__xml::reader::XmlEvent::Characters(ref text_content) => {
               #set_text
-- 
2.43.0


From 7a8953af5c0dbbe1ec16bfe49f436f4fa8c488c2 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:15 +0000
Subject: [PATCH 02/36] fix: do not take a struct's own element for a child
 field of the same name

---
 yaserde_derive/src/de/expand_struct.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/yaserde_derive/src/de/expand_struct.rs b/yaserde_derive/src/de/expand_struct.rs
index 972bd4f..777476e 100644
--- a/yaserde_derive/src/de/expand_struct.rs
+++ b/yaserde_derive/src/de/expand_struct.rs
@@ -154,10 +154,6 @@ pub fn parse(
       let visit_struct = |struct_name: syn::Path, action: TokenStream| {
         Some(quote! {
           (#namespace, #label_name) => {
-            if depth == 0 {
-              // Don't count current struct's StartElement as substruct's StartElement
-              let _root = reader.next_event();
-            }
             if let Ok(::yaserde::__xml::reader::XmlEvent::StartElement { .. }) = reader.peek() {
               // If substruct's start element found then deserialize substruct
               let value = <#struct_name as ::yaserde::YaDeserialize>::deserialize(reader)?;
@@ -421,9 +417,9 @@ pub fn parse(
           match event {
             ::yaserde::__xml::reader::XmlEvent::StartElement{ref name, ref attributes, ..} => {
               let namespace = name.namespace.clone().unwrap_or_default();
-              if depth == 0 && name.local_name == #root && namespace.as_str() == #root_namespace {
-                // Consume root element. We must do this first. In the case it shares a name with a child element, we don't
-                // want to prematurely match the child element below.
+              if depth == 0 && (!#flatten || name.local_name == #root && namespace.as_str() == #root_namespace) {
+                // Consume own element, whatever its name is. We must do this first. In the case it shares a name with a
+                // child element, we don't want to prematurely match the child element below.
                 let event = reader.next_event()?;
                 #write_unused
               } else {
-- 
2.43.0


From 0ae5f56bd8a3597ea7fc217916b9cf3cca967bb0 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:36 +0000
Subject: [PATCH 03/36] fix: do not let the rest of a malformed simple element
 leak into its parent

---
 yaserde_derive/src/de/expand_struct.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/yaserde_derive/src/de/expand_struct.rs b/yaserde_derive/src/de/expand_struct.rs
index 777476e..3ff3819 100644
--- a/yaserde_derive/src/de/expand_struct.rs
+++ b/yaserde_derive/src/de/expand_struct.rs
@@ -506,6 +506,7 @@ fn build_call_visitor(
 
       #namespaces_matching
 
+      let field_depth = reader.depth();
       let result = reader.read_inner_value::<#field_type, _>(|reader| {
         if let ::std::result::Result::Ok(::yaserde::__xml::reader::XmlEvent::Characters(s)) = reader.peek() {
           let val = visitor.#visitor(&s);
@@ -515,6 +516,10 @@ fn build_call_visitor(
           ::std::result::Result::Err(::std::format!("unable to parse content for {}", #label_name))
         }
       });
+      // Drop whatever is left of the field's element
+      while reader.depth() > field_depth {
+        let _event = reader.next_event()?;
+      }
 
       if let ::std::result::Result::Ok(value) = result {
         #value_label#action
-- 
2.43.0


From 2448f3f5338fbefcaa3acb3957802270d0ad49aa Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:46 +0000
Subject: [PATCH 04/36] fix: consume a nested element completely when its
 deserializer stops early

---
 yaserde_derive/src/de/expand_enum.rs   | 5 +++++
 yaserde_derive/src/de/expand_struct.rs | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/yaserde_derive/src/de/expand_enum.rs b/yaserde_derive/src/de/expand_enum.rs
index 3134a07..6572f2f 100644
--- a/yaserde_derive/src/de/expand_enum.rs
+++ b/yaserde_derive/src/de/expand_enum.rs
@@ -265,10 +265,15 @@ fn build_unnamed_visitor_calls(
 
       let call_struct_visitor = |struct_name, action| {
         Some(quote! {
+          let variant_depth = reader.depth();
           match <#struct_name as ::yaserde::YaDeserialize>::deserialize(reader) {
             Ok(value) => {
               #action;
               let _root = reader.next_event();
+              // Some deserializers stop before reaching the EndElement of the variant
+              while reader.depth() > variant_depth {
+                let _event = reader.next_event()?;
+              }
             },
             Err(msg) => {
               return Err(msg);
diff --git a/yaserde_derive/src/de/expand_struct.rs b/yaserde_derive/src/de/expand_struct.rs
index 3ff3819..512190d 100644
--- a/yaserde_derive/src/de/expand_struct.rs
+++ b/yaserde_derive/src/de/expand_struct.rs
@@ -156,10 +156,15 @@ pub fn parse(
           (#namespace, #label_name) => {
             if let Ok(::yaserde::__xml::reader::XmlEvent::StartElement { .. }) = reader.peek() {
               // If substruct's start element found then deserialize substruct
+              let field_depth = reader.depth();
               let value = <#struct_name as ::yaserde::YaDeserialize>::deserialize(reader)?;
               #value_label #action;
               // read EndElement
               let _event = reader.next_event()?;
+              // Some deserializers stop before reaching the EndElement of the substruct
+              while reader.depth() > field_depth {
+                let _event = reader.next_event()?;
+              }
             }
           }
         })
-- 
2.43.0


From e6e9ae19de8c86298a14ef2993077cf080bff0c6 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:24 +0000
Subject: [PATCH 05/36] fix: return an error instead of panicking on unparsable
 enum variant content

---
 yaserde_derive/src/de/expand_enum.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/yaserde_derive/src/de/expand_enum.rs b/yaserde_derive/src/de/expand_enum.rs
index 6572f2f..ae51fb0 100644
--- a/yaserde_derive/src/de/expand_enum.rs
+++ b/yaserde_derive/src/de/expand_enum.rs
@@ -187,7 +187,7 @@ fn build_unnamed_field_visitors(fields: &syn::FieldsUnnamed) -> TokenStream {
         make_visitor(
           &visitor,
           &field_type,
-          &quote! { ::std::result::Result::Ok(#field_type::from_str(v).unwrap()) },
+          &quote! { #field_type::from_str(v).map_err(|e| e.to_string()) },
         )
       };
 
@@ -257,9 +257,8 @@ fn build_unnamed_visitor_calls(
             }
           });
 
-          if let ::std::result::Result::Ok(value) = result {
-            #action
-          }
+          let value = result?;
+          #action
         })
       };
 
-- 
2.43.0


From d6b2ff313a9604e103f52855fdebaaebc4153e2d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:27 +0000
Subject: [PATCH 06/36] fix: do not match the text of an enum element against
 variants holding data

---
 yaserde_derive/src/de/expand_enum.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/yaserde_derive/src/de/expand_enum.rs b/yaserde_derive/src/de/expand_enum.rs
index ae51fb0..69cb1a9 100644
--- a/yaserde_derive/src/de/expand_enum.rs
+++ b/yaserde_derive/src/de/expand_enum.rs
@@ -23,6 +23,14 @@ pub fn parse(
     .filter_map(|variant| parse_variant(variant, name))
     .collect();
 
+  // Only unit variants can be written as a text
+  let match_text_to_enum: TokenStream = data_enum
+    .variants
+    .iter()
+    .filter(|variant| matches!(variant.fields, Fields::Unit))
+    .filter_map(|variant| parse_variant(variant, name))
+    .collect();
+
   let flatten = root_attributes.flatten;
   let (impl_generics, ty_generics, where_clause) = generics.split_for_impl();
 
@@ -75,7 +83,7 @@ pub fn parse(
 
               if let ::yaserde::__xml::reader::XmlEvent::Characters(content) = reader.peek()?.to_owned() {
                 match content.as_str() {
-                  #match_to_enum
+                  #match_text_to_enum
                   _ => {}
                 }
               }
-- 
2.43.0


From 95918198438a1b6339c64e32c2f5127633352029 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:42 +0000
Subject: [PATCH 07/36] fix: skip the content of elements that are unknown to
 an enum

---
 yaserde_derive/src/de/expand_enum.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/yaserde_derive/src/de/expand_enum.rs b/yaserde_derive/src/de/expand_enum.rs
index 69cb1a9..373c936 100644
--- a/yaserde_derive/src/de/expand_enum.rs
+++ b/yaserde_derive/src/de/expand_enum.rs
@@ -78,6 +78,10 @@ pub fn parse(
                 #match_to_enum
                 _named_element => {
                   let _root = reader.next_event();
+
+                  if reader.depth() > start_depth + 1 { // Don't skip root element
+                    reader.skip_element(|_| {})?;
+                  }
                 }
               }
 
-- 
2.43.0


From 922c3d4f445210918b6ea61f41a73cb87222ed9f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:12 +0000
Subject: [PATCH 08/36] fix: do not take an enum's own element for a variant of
 the same name

---
 yaserde_derive/src/de/expand_enum.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/yaserde_derive/src/de/expand_enum.rs b/yaserde_derive/src/de/expand_enum.rs
index 373c936..d16a759 100644
--- a/yaserde_derive/src/de/expand_enum.rs
+++ b/yaserde_derive/src/de/expand_enum.rs
@@ -32,6 +32,7 @@ pub fn parse(
     .collect();
 
   let flatten = root_attributes.flatten;
+  let has_own_element = !flatten && root_attributes.tag.is_none();
   let (impl_generics, ty_generics, where_clause) = generics.split_for_impl();
 
   let element_name = if let Some(tag) = &root_attributes.tag {
@@ -75,6 +76,13 @@ pub fn parse(
           match event {
             ::yaserde::__xml::reader::XmlEvent::StartElement { ref name, ref attributes, .. } => {
               match #element_name {
+                // Consume own element first, it may share its name with a variant
+                own_element if #has_own_element
+                  && reader.depth() == start_depth
+                  && (start_depth > 0 || own_element == #root) =>
+                {
+                  let _root = reader.next_event()?;
+                }
                 #match_to_enum
                 _named_element => {
                   let _root = reader.next_event();
-- 
2.43.0


From 109a1c9a1213dfb4a5b576c6ade61f3e32df2805 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:42 +0000
Subject: [PATCH 09/36] fix: honour skip_serializing and skip_serializing_if on
 attributes, text and flattened structs

---
 yaserde_derive/src/common/field.rs      |  6 ++++--
 yaserde_derive/src/ser/element.rs       |  9 +++++++++
 yaserde_derive/src/ser/expand_struct.rs | 22 ++++++++++++++++------
 3 files changed, 29 insertions(+), 8 deletions(-)

diff --git a/yaserde_derive/src/common/field.rs b/yaserde_derive/src/common/field.rs
index 06f650c..a51588c 100644
--- a/yaserde_derive/src/common/field.rs
+++ b/yaserde_derive/src/common/field.rs
@@ -181,10 +181,12 @@ impl YaSerdeField {
       .map(|builder| quote!(let yaserde_inner = #builder;))
       .unwrap_or_default();
 
+    let skip_serializing = self.is_skip_serializing();
+
     let skip_if = self
       .get_skip_serializing_if_function()
-      .map(|skip_if_function| quote!(!self.#skip_if_function(&self.#label)))
-      .unwrap_or(quote!(true));
+      .map(|skip_if_function| quote!(!#skip_serializing && !self.#skip_if_function(&self.#label)))
+      .unwrap_or(quote!(!#skip_serializing));
 
     self
       .get_default_function()
diff --git a/yaserde_derive/src/ser/element.rs b/yaserde_derive/src/ser/element.rs
index 0f2fb0c..29977e4 100644
--- a/yaserde_derive/src/ser/element.rs
+++ b/yaserde_derive/src/ser/element.rs
@@ -64,3 +64,12 @@ pub fn condition_generator(label: &Option<Ident>, field: &YaSerdeField) -> Token
         .unwrap_or(quote!(if !#skip_serializing))
     })
 }
+
+pub fn skip_condition_generator(label: &Option<Ident>, field: &YaSerdeField) -> TokenStream {
+  let skip_serializing = field.is_skip_serializing();
+
+  field
+    .get_skip_serializing_if_function()
+    .map(|skip_if_function| quote!(if !#skip_serializing && !self.#skip_if_function(&self.#label)))
+    .unwrap_or(quote!(if !#skip_serializing))
+}
diff --git a/yaserde_derive/src/ser/expand_struct.rs b/yaserde_derive/src/ser/expand_struct.rs
index 2a4507b..1e07dd9 100644
--- a/yaserde_derive/src/ser/expand_struct.rs
+++ b/yaserde_derive/src/ser/expand_struct.rs
@@ -123,13 +123,17 @@ pub fn serialize(
       } else {
         match field.get_type() {
           Field::FieldStruct { .. } => {
+            let conditions = skip_condition_generator(&label, &field);
+
             quote!(
               let (attributes, namespace) = self.#label.serialize_attributes(
                 ::std::vec![],
                 ::yaserde::__xml::namespace::Namespace::empty(),
               )?;
               child_attributes_namespace.extend(&namespace);
-              child_attributes.extend(attributes);
+              #conditions {
+                child_attributes.extend(attributes);
+              }
             )
           }
           _ => quote!(),
@@ -146,15 +150,21 @@ pub fn serialize(
     .filter_map(|field| {
       let label = field.label();
       if field.is_text_content() {
+        let conditions = skip_condition_generator(&label, &field);
+
         return match field.get_type() {
           Field::FieldOption { .. } => Some(quote!(
-            let s = self.#label.as_deref().unwrap_or_default();
-            let data_event = ::yaserde::__xml::writer::XmlEvent::characters(s);
-            writer.write(data_event).map_err(|e| e.to_string())?;
+            #conditions {
+              let s = self.#label.as_deref().unwrap_or_default();
+              let data_event = ::yaserde::__xml::writer::XmlEvent::characters(s);
+              writer.write(data_event).map_err(|e| e.to_string())?;
+            }
           )),
           _ => Some(quote!(
-            let data_event = ::yaserde::__xml::writer::XmlEvent::characters(&self.#label);
-            writer.write(data_event).map_err(|e| e.to_string())?;
+            #conditions {
+              let data_event = ::yaserde::__xml::writer::XmlEvent::characters(&self.#label);
+              writer.write(data_event).map_err(|e| e.to_string())?;
+            }
           )),
         };
       }
-- 
2.43.0


From b0f9fadc5074a9e46cdd30b09b91699820e6ff98 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:33 +0000
Subject: [PATCH 10/36] fix: serialize the attributes of an optional flattened
 struct

---
 yaserde_derive/src/ser/expand_struct.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/yaserde_derive/src/ser/expand_struct.rs b/yaserde_derive/src/ser/expand_struct.rs
index 1e07dd9..7044857 100644
--- a/yaserde_derive/src/ser/expand_struct.rs
+++ b/yaserde_derive/src/ser/expand_struct.rs
@@ -136,6 +136,22 @@ pub fn serialize(
               }
             )
           }
+          Field::FieldOption { data_type } if matches!(*data_type, Field::FieldStruct { .. }) => {
+            let conditions = skip_condition_generator(&label, &field);
+
+            quote!(
+              if let ::std::option::Option::Some(ref item) = self.#label {
+                let (attributes, namespace) = item.serialize_attributes(
+                  ::std::vec![],
+                  ::yaserde::__xml::namespace::Namespace::empty(),
+                )?;
+                child_attributes_namespace.extend(&namespace);
+                #conditions {
+                  child_attributes.extend(attributes);
+                }
+              }
+            )
+          }
           _ => quote!(),
         }
       }
-- 
2.43.0


From 1883b0bca01345fa6fd36252ca9438c15e1c5e87 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:35 +0000
Subject: [PATCH 11/36] fix: write well-formed CDATA sections for content
 holding an end mark

---
 yaserde_derive/src/ser/expand_struct.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/yaserde_derive/src/ser/expand_struct.rs b/yaserde_derive/src/ser/expand_struct.rs
index 7044857..17e135d 100644
--- a/yaserde_derive/src/ser/expand_struct.rs
+++ b/yaserde_derive/src/ser/expand_struct.rs
@@ -192,7 +192,9 @@ pub fn serialize(
             #conditions {
               let start_event = ::yaserde::__xml::writer::XmlEvent::start_element(#label_name);
               writer.write(start_event).map_err(|e| e.to_string())?;
-              let data = ::yaserde::__xml::writer::events::XmlEvent::cdata(&self.#label);
+              // The end mark of a CDATA section can't appear in it, split it across two sections
+              let cdata_content = self.#label.replace("]]>", "]]]]><![CDATA[>");
+              let data = ::yaserde::__xml::writer::events::XmlEvent::cdata(&cdata_content);
               writer.write(data).map_err(|e| e.to_string())?;
               let end_event = ::yaserde::__xml::writer::XmlEvent::end_element();
               writer.write(end_event).map_err(|e| e.to_string())?;
-- 
2.43.0


From b6de7939babb9cf3e8c94f46ed3d6cffba9c90d1 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:40 +0000
Subject: [PATCH 12/36] fix: report write errors when serializing a primitive
 type

---
 yaserde/src/lib.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/yaserde/src/lib.rs b/yaserde/src/lib.rs
index 6c86ac9..06b0f61 100644
--- a/yaserde/src/lib.rs
+++ b/yaserde/src/lib.rs
@@ -177,8 +177,7 @@ macro_rules! serialize_type {
       fn serialize<W: Write>(&self, writer: &mut ser::Serializer<W>) -> Result<(), String> {
         let content = format!("{}", self);
         let event = XmlEvent::characters(&content);
-        let _ret = writer.write(event);
-        Ok(())
+        writer.write(event).map_err(|e| e.to_string())
       }
 
       fn serialize_attributes(
-- 
2.43.0


From 8ab127ce78008dadf16b6b570c7462e409a8f07b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:20 +0000
Subject: [PATCH 13/36] fix: parse HexBinaryYaSerde values as the hexadecimal
 they are serialized to

---
 yaserde_derive/src/primitives.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/yaserde_derive/src/primitives.rs b/yaserde_derive/src/primitives.rs
index 386bf28..ef5f2e0 100644
--- a/yaserde_derive/src/primitives.rs
+++ b/yaserde_derive/src/primitives.rs
@@ -71,8 +71,11 @@ pub fn hexbinary_serde(input: TokenStream) -> TokenStream {
 
       fn from_str(s: &::std::primitive::str) -> ::std::result::Result<Self, Self::Err> {
         Self::from_bits(
-          s.parse()
-              .map_err(|_| String::from("Failed to parse Bitflag integer"))?,
+          // As written by `Display`, the text is in hexadecimal
+          u128::from_str_radix(s, 16)
+              .ok()
+              .and_then(|bits| ::std::convert::TryFrom::try_from(bits).ok())
+              .ok_or(String::from("Failed to parse Bitflag integer"))?,
       )
       .ok_or(String::from("Unknown bits were set in Bitflag"))
       }
-- 
2.43.0


From 63febaf436210a30b38a7e0f4818d557ffdccb6b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:36 +0000
Subject: [PATCH 14/36] fix: deserialize an empty element or text into an empty
 string

---
 yaserde_derive/src/de/expand_struct.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/yaserde_derive/src/de/expand_struct.rs b/yaserde_derive/src/de/expand_struct.rs
index 512190d..12c03aa 100644
--- a/yaserde_derive/src/de/expand_struct.rs
+++ b/yaserde_derive/src/de/expand_struct.rs
@@ -361,6 +361,9 @@ pub fn parse(
         _ => {
           if let Some(default_function) = field.get_default_function() {
             quote! { #label: #value_label.unwrap_or_else(|| #default_function()), }
+          } else if field.is_text_content() && matches!(field.get_type(), Field::FieldString) {
+            // There is no Characters event for an empty text
+            quote! { #label: #value_label.unwrap_or_default(), }
           } else {
             let error = format!(
               "{} is a required field of {}",
@@ -505,6 +508,15 @@ fn build_call_visitor(
 
   let namespace = field.prefix_namespace(root_attributes);
 
+  // There is no Characters event in an empty element
+  let visit_empty = match field.get_type() {
+    Field::FieldString => true,
+    Field::FieldOption { data_type } | Field::FieldVec { data_type } => {
+      matches!(*data_type, Field::FieldString)
+    }
+    _ => false,
+  };
+
   Some(quote! {
     (#namespace, #label_name) => {
       let visitor = #visitor_label{};
@@ -517,6 +529,13 @@ fn build_call_visitor(
           let val = visitor.#visitor(&s);
           let _event = reader.next_event()?;
           val
+        } else if #visit_empty
+          && ::std::matches!(
+            reader.peek(),
+            ::std::result::Result::Ok(::yaserde::__xml::reader::XmlEvent::EndElement { .. })
+          )
+        {
+          visitor.#visitor("")
         } else {
           ::std::result::Result::Err(::std::format!("unable to parse content for {}", #label_name))
         }
-- 
2.43.0


From 1c4a3afe44f6975093b691df26e534f20ef8efdd Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:29 +0000
Subject: [PATCH 15/36] fix: do not match a text field against child elements

---
 yaserde_derive/src/de/expand_struct.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/yaserde_derive/src/de/expand_struct.rs b/yaserde_derive/src/de/expand_struct.rs
index 12c03aa..c034fcf 100644
--- a/yaserde_derive/src/de/expand_struct.rs
+++ b/yaserde_derive/src/de/expand_struct.rs
@@ -55,6 +55,9 @@ pub fn parse(
       if field.is_attribute() {
         return true;
       };
+      if field.is_text_content() {
+        return false;
+      }
       match field.get_type() {
         Field::FieldVec { data_type } => !matches!(*data_type, Field::FieldStruct { .. }),
         Field::FieldOption { data_type } => !matches!(*data_type, Field::FieldStruct { .. }),
@@ -144,7 +147,7 @@ pub fn parse(
     .fields
     .iter()
     .map(|field| YaSerdeField::new(field.clone()))
-    .filter(|field| !field.is_attribute() && !field.is_flatten())
+    .filter(|field| !field.is_attribute() && !field.is_flatten() && !field.is_text_content())
     .filter_map(|field| {
       let value_label = field.get_value_label();
       let label_name = field.renamed_label_without_namespace();
-- 
2.43.0


From cc8dd0c2812ef8e8e823d1b9feb2bd370e78f442 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:31 +0000
Subject: [PATCH 16/36] fix: serialize a flattened enum variant under its own
 name

---
 yaserde_derive/src/ser/expand_enum.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/yaserde_derive/src/ser/expand_enum.rs b/yaserde_derive/src/ser/expand_enum.rs
index 560ed79..ecc1de5 100644
--- a/yaserde_derive/src/ser/expand_enum.rs
+++ b/yaserde_derive/src/ser/expand_enum.rs
@@ -300,7 +300,11 @@ fn inner_enum_inspector(
                 }
                 Field::FieldStruct { .. } => {
                   if variant_attrs.flatten || field.is_flatten() {
-                     match_field(&quote!{ ::yaserde::YaSerialize::serialize(item, writer)?})
+                     match_field(&quote!{
+                       writer.set_start_event_name(::std::option::Option::None);
+                       writer.set_skip_start_end(false);
+                       ::yaserde::YaSerialize::serialize(item, writer)?;
+                     })
                    } else {
                      write_element(&match_field(&serialize))
                    }
-- 
2.43.0


From c23935ae1edb83d771ceda4663e86b9f53f945f9 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:07 +0000
Subject: [PATCH 17/36] fix: serialize the attributes and namespaces of a
 struct held by an enum variant

---
 yaserde_derive/src/ser/expand_enum.rs | 29 +++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/yaserde_derive/src/ser/expand_enum.rs b/yaserde_derive/src/ser/expand_enum.rs
index ecc1de5..4812775 100644
--- a/yaserde_derive/src/ser/expand_enum.rs
+++ b/yaserde_derive/src/ser/expand_enum.rs
@@ -261,11 +261,28 @@ fn inner_enum_inspector(
                 ::yaserde::YaSerialize::serialize(item, writer)?;
               };
 
-              let write_sub_type = |data_type| {
-                write_element(match data_type {
-                  Field::FieldString => &write_string_chars,
-                  _ => &serialize,
-                })
+              let write_struct = quote! {
+                let (attributes, namespace) = ::yaserde::YaSerialize::serialize_attributes(
+                  item,
+                  ::std::vec![],
+                  ::yaserde::__xml::namespace::Namespace::empty(),
+                )?;
+                writer.write(::yaserde::__xml::writer::events::XmlEvent::StartElement {
+                  name: #label_name.into(),
+                  attributes: attributes.iter().map(|attribute| attribute.borrow()).collect(),
+                  namespace: ::std::borrow::Cow::Owned(namespace),
+                }).map_err(|e| e.to_string())?;
+
+                #serialize
+
+                let struct_end_event = ::yaserde::__xml::writer::XmlEvent::end_element();
+                writer.write(struct_end_event).map_err(|e| e.to_string())?;
+              };
+
+              let write_sub_type = |data_type| match data_type {
+                Field::FieldString => write_element(&write_string_chars),
+                Field::FieldStruct { .. } => write_struct.clone(),
+                _ => write_element(&serialize),
               };
 
               let match_field = |write: &TokenStream| {
@@ -306,7 +323,7 @@ fn inner_enum_inspector(
                        ::yaserde::YaSerialize::serialize(item, writer)?;
                      })
                    } else {
-                     write_element(&match_field(&serialize))
+                     match_field(&write_struct)
                    }
                 }
                 Field::FieldString => match_field(&write_element(&write_string_chars)),
-- 
2.43.0


From 0ef2159b195d58b6c363fc9d3ea89820362b9c42 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:08 +0000
Subject: [PATCH 18/36] fix: check the namespace of an enum only at the root of
 the document

---
 yaserde_derive/src/de/expand_enum.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/yaserde_derive/src/de/expand_enum.rs b/yaserde_derive/src/de/expand_enum.rs
index d16a759..7715d10 100644
--- a/yaserde_derive/src/de/expand_enum.rs
+++ b/yaserde_derive/src/de/expand_enum.rs
@@ -65,7 +65,9 @@ pub fn parse(
         let start_depth = reader.depth();
         ::yaserde::__derive_debug!("Enum {} @ {}: start to parse {:?}", stringify!(#name), start_depth, named_element);
 
-        #namespaces_matching
+        if reader.depth() == 0 {
+          #namespaces_matching
+        }
 
         #[allow(unused_assignments, unused_mut)]
         let mut enum_value = ::std::option::Option::None;
-- 
2.43.0


From 55d488b1ed80c5fa16cf92bdd77d0bb530e946c3 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:56 +0000
Subject: [PATCH 19/36] fix: report an error when a document ends or breaks
 before its deserialized element is complete

---
 yaserde/src/de/mod.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/yaserde/src/de/mod.rs b/yaserde/src/de/mod.rs
index b08b138..0ee8069 100644
--- a/yaserde/src/de/mod.rs
+++ b/yaserde/src/de/mod.rs
@@ -11,7 +11,15 @@ pub fn from_str<T: YaDeserialize>(s: &str) -> Result<T, String> {
 }
 
 pub fn from_reader<R: Read, T: YaDeserialize>(reader: R) -> Result<T, String> {
-  <T as YaDeserialize>::deserialize(&mut Deserializer::new_from_reader(reader))
+  let mut deserializer = Deserializer::new_from_reader(reader);
+  let value = <T as YaDeserialize>::deserialize(&mut deserializer)?;
+
+  // Some deserializers stop before the end of the element, it must be complete nevertheless
+  while deserializer.depth() > 0 {
+    deserializer.next_event()?;
+  }
+
+  Ok(value)
 }
 
 pub struct Deserializer<R: Read> {
-- 
2.43.0


From 3dd1af70f0c4c1f084f949dff502a4ea026567cf Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:35 +0000
Subject: [PATCH 20/36] fix: write list attributes instead of dropping them

---
 yaserde_derive/src/ser/expand_struct.rs | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/yaserde_derive/src/ser/expand_struct.rs b/yaserde_derive/src/ser/expand_struct.rs
index 17e135d..922a4cc 100644
--- a/yaserde_derive/src/ser/expand_struct.rs
+++ b/yaserde_derive/src/ser/expand_struct.rs
@@ -115,9 +115,28 @@ pub fn serialize(
               struct_start_event.attr(#label_name, &yaserde_inner)
             }),
           ),
-          Field::FieldVec { .. } => {
-            // TODO
-            quote!()
+          Field::FieldVec { data_type } => {
+            let item_to_string = match *data_type {
+              Field::FieldStruct { .. } => quote!(::yaserde::ser::to_string_content(item)?),
+              _ => quote!(item.to_string()),
+            };
+
+            field.ser_wrap_default_attribute(
+              Some(quote!({
+                let mut items = ::std::vec::Vec::<::std::string::String>::new();
+                for item in &self.#label {
+                  items.push(#item_to_string);
+                }
+                items.join(" ")
+              })),
+              quote!({
+                if self.#label.is_empty() {
+                  struct_start_event
+                } else {
+                  struct_start_event.attr(#label_name, &yaserde_inner)
+                }
+              }),
+            )
           }
         }
       } else {
-- 
2.43.0


From 783ad1f80d340e7d3b69a4d2c3cad32e0655e7f1 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:31 +0000
Subject: [PATCH 21/36] fix: report an error when an element whose start tag is
 enough is malformed or truncated

---
 yaserde/src/de/mod.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/yaserde/src/de/mod.rs b/yaserde/src/de/mod.rs
index 0ee8069..ec3b096 100644
--- a/yaserde/src/de/mod.rs
+++ b/yaserde/src/de/mod.rs
@@ -14,7 +14,13 @@ pub fn from_reader<R: Read, T: YaDeserialize>(reader: R) -> Result<T, String> {
   let mut deserializer = Deserializer::new_from_reader(reader);
   let value = <T as YaDeserialize>::deserialize(&mut deserializer)?;
 
-  // Some deserializers stop before the end of the element, it must be complete nevertheless
+  // Some deserializers stop before the end of the element, or even don't consume its start tag,
+  // it must be complete nevertheless
+  if deserializer.depth() == 0
+    && matches!(deserializer.peeked, Some(XmlEvent::StartElement { .. }))
+  {
+    deserializer.next_event()?;
+  }
   while deserializer.depth() > 0 {
     deserializer.next_event()?;
   }
-- 
2.43.0


From 2f62c64fb2e9313db89002a1bfe4476e70149f42 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:52 +0000
Subject: [PATCH 22/36] fix: fields whose XML names look alike don't get the
 same visitor

---
 yaserde_derive/src/common/field.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/yaserde_derive/src/common/field.rs b/yaserde_derive/src/common/field.rs
index a51588c..854e3f3 100644
--- a/yaserde_derive/src/common/field.rs
+++ b/yaserde_derive/src/common/field.rs
@@ -81,7 +81,10 @@ impl YaSerdeField {
   }
 
   pub fn get_visitor_ident(&self, struct_name: Option<&syn::Path>) -> Ident {
-    let label = self.renamed_label_without_namespace();
+    // The XML names of two fields can give the same identifier, their own names can't
+    let label = self
+      .label()
+      .map_or_else(String::new, |label| label.unraw().to_string());
 
     let struct_id = struct_name.map_or_else(
       || "".to_string(),
@@ -111,7 +114,7 @@ impl YaSerdeField {
       &format!(
         "__Visitor_{attribute}{}{}_{}",
         prefix,
-        label.replace('.', "_").to_upper_camel_case(),
+        label,
         struct_id
       ),
       self.get_span(),
-- 
2.43.0


From 0893f2a5dc8b59ecb8df3f5df959007338dda5ce Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:54 +0000
Subject: [PATCH 23/36] fix: a raw identifier doesn't put r# in the XML name

---
 yaserde_derive/src/common/attribute.rs | 6 +++++-
 yaserde_derive/src/common/field.rs     | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/yaserde_derive/src/common/attribute.rs b/yaserde_derive/src/common/attribute.rs
index 3532af1..68a1140 100644
--- a/yaserde_derive/src/common/attribute.rs
+++ b/yaserde_derive/src/common/attribute.rs
@@ -4,6 +4,7 @@ use serde::Deserialize;
 use serde_tokenstream::from_tokenstream;
 use std::collections::BTreeMap;
 use std::convert::TryFrom;
+use syn::ext::IdentExt;
 use syn::{Attribute, Meta};
 
 #[derive(Clone, Debug, Default, PartialEq, Deserialize)]
@@ -88,7 +89,10 @@ impl From<&Vec<Attribute>> for YaSerdeAttribute {
 
 impl YaSerdeAttribute {
   pub fn xml_element_name(&self, ident: &Ident) -> String {
-    self.rename.clone().unwrap_or_else(|| ident.to_string())
+    self
+      .rename
+      .clone()
+      .unwrap_or_else(|| ident.unraw().to_string())
   }
 
   pub fn prefix_namespace(&self) -> String {
diff --git a/yaserde_derive/src/common/field.rs b/yaserde_derive/src/common/field.rs
index 854e3f3..6e342fb 100644
--- a/yaserde_derive/src/common/field.rs
+++ b/yaserde_derive/src/common/field.rs
@@ -61,7 +61,7 @@ impl YaSerdeField {
       .attributes
       .rename
       .clone()
-      .unwrap_or_else(|| self.label().as_ref().unwrap().to_string())
+      .unwrap_or_else(|| self.label().as_ref().unwrap().unraw().to_string())
   }
 
   pub fn renamed_label(&self, root_attributes: &YaSerdeAttribute) -> String {
-- 
2.43.0


From 6daea7a3b84a49637980c4eb3a28e9dc560498ad Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:34 +0000
Subject: [PATCH 24/36] fix: derive names Option by its full path

A field's place-holder was declared as Option<..>, so that a type derived where
another Option is in scope did not compile.
---
 yaserde_derive/src/de/build_default_value.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yaserde_derive/src/de/build_default_value.rs b/yaserde_derive/src/de/build_default_value.rs
index 0ad14e0..ebdf326 100644
--- a/yaserde_derive/src/de/build_default_value.rs
+++ b/yaserde_derive/src/de/build_default_value.rs
@@ -9,7 +9,7 @@ pub fn build_default_value(
   let label = field.get_value_label();
 
   let field_type = field_type
-    .map(|field_type| quote!(: Option::<#field_type>))
+    .map(|field_type| quote!(: ::std::option::Option<#field_type>))
     .unwrap_or_default();
 
   Some(quote! {
-- 
2.43.0


From 22bdcaab2d3e9d61275f26ca0e4816255b339ca2 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:43 +0000
Subject: [PATCH 25/36] fix: derive leaves the names R and W to the type's own
 parameters

The functions of the derived impls had type parameters R and W: a generic type with
a parameter of either name did not compile.
---
 yaserde_derive/src/de/expand_enum.rs           | 4 ++--
 yaserde_derive/src/de/expand_struct.rs         | 4 ++--
 yaserde_derive/src/ser/implement_serializer.rs | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/yaserde_derive/src/de/expand_enum.rs b/yaserde_derive/src/de/expand_enum.rs
index 7715d10..7617cb8 100644
--- a/yaserde_derive/src/de/expand_enum.rs
+++ b/yaserde_derive/src/de/expand_enum.rs
@@ -52,8 +52,8 @@ pub fn parse(
   quote! {
     impl #impl_generics ::yaserde::YaDeserialize for #name #ty_generics #where_clause {
       #[allow(unused_variables)]
-      fn deserialize<R: ::std::io::Read>(
-        reader: &mut ::yaserde::de::Deserializer<R>,
+      fn deserialize<__R: ::std::io::Read>(
+        reader: &mut ::yaserde::de::Deserializer<__R>,
       ) -> ::std::result::Result<Self, ::std::string::String> {
         let (named_element, enum_namespace) =
           if let ::yaserde::__xml::reader::XmlEvent::StartElement{ name, .. } = reader.peek()?.to_owned() {
diff --git a/yaserde_derive/src/de/expand_struct.rs b/yaserde_derive/src/de/expand_struct.rs
index c034fcf..9d795c6 100644
--- a/yaserde_derive/src/de/expand_struct.rs
+++ b/yaserde_derive/src/de/expand_struct.rs
@@ -396,8 +396,8 @@ pub fn parse(
   quote! {
     impl #impl_generics ::yaserde::YaDeserialize for #name #ty_generics #where_clause {
       #[allow(unused_variables)]
-      fn deserialize<R: ::std::io::Read>(
-        reader: &mut ::yaserde::de::Deserializer<R>,
+      fn deserialize<__R: ::std::io::Read>(
+        reader: &mut ::yaserde::de::Deserializer<__R>,
       ) -> ::std::result::Result<Self, ::std::string::String> {
         let (named_element, struct_namespace) =
           if let ::yaserde::__xml::reader::XmlEvent::StartElement { name, .. } = reader.peek()?.to_owned() {
diff --git a/yaserde_derive/src/ser/implement_serializer.rs b/yaserde_derive/src/ser/implement_serializer.rs
index 82c3759..1ee71d6 100644
--- a/yaserde_derive/src/ser/implement_serializer.rs
+++ b/yaserde_derive/src/ser/implement_serializer.rs
@@ -21,9 +21,9 @@ pub fn implement_serializer(
   quote! {
     impl #impl_generics ::yaserde::YaSerialize for #name #ty_generics #where_clause {
       #[allow(unused_variables)]
-      fn serialize<W: ::std::io::Write>(
+      fn serialize<__W: ::std::io::Write>(
         &self,
-        writer: &mut ::yaserde::ser::Serializer<W>,
+        writer: &mut ::yaserde::ser::Serializer<__W>,
       ) -> ::std::result::Result<(), ::std::string::String> {
         let skip = writer.skip_start_end();
 
-- 
2.43.0


From aced72187667f617816a7683957eff3e528496ff Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:43 +0000
Subject: [PATCH 26/36] fix: generic enums can be deserialized

The default variant was asked of the type without its parameters, and a visitor
nobody used named the payload's type in an item of its own: a generic enum did not
compile.
---
 yaserde_derive/src/de/expand_enum.rs | 24 ++++--------------------
 1 file changed, 4 insertions(+), 20 deletions(-)

diff --git a/yaserde_derive/src/de/expand_enum.rs b/yaserde_derive/src/de/expand_enum.rs
index 7617cb8..4e2e1b8 100644
--- a/yaserde_derive/src/de/expand_enum.rs
+++ b/yaserde_derive/src/de/expand_enum.rs
@@ -1,5 +1,5 @@
 use crate::common::{Field, YaSerdeAttribute, YaSerdeField};
-use proc_macro2::{Span, TokenStream};
+use proc_macro2::TokenStream;
 use quote::quote;
 use syn::{DataEnum, Fields, Generics, Ident};
 
@@ -127,7 +127,7 @@ pub fn parse(
         }
 
         ::yaserde::__derive_debug!("Enum {} @ {}: success", stringify!(#name), start_depth);
-        ::std::result::Result::Ok(enum_value.unwrap_or(<#name as ::std::default::Default>::default()))
+        ::std::result::Result::Ok(enum_value.unwrap_or(<Self as ::std::default::Default>::default()))
       }
     }
   }
@@ -214,24 +214,8 @@ fn build_unnamed_field_visitors(fields: &syn::FieldsUnnamed) -> TokenStream {
       };
 
       match field.get_type() {
-        Field::FieldStruct { struct_name } => {
-          let struct_id: String = struct_name
-            .segments
-            .iter()
-            .map(|s| s.ident.to_string())
-            .collect();
-
-          Some(make_visitor(
-            &Ident::new("visit_str", Span::call_site()),
-            &quote! { #struct_name },
-            &quote! {
-              let content = "<".to_string() + #struct_id + ">" + v + "</" + #struct_id + ">";
-              let value: ::std::result::Result<#struct_name, ::std::string::String> =
-                ::yaserde::de::from_str(&content);
-              value
-            },
-          ))
-        }
+        // A struct deserializes itself
+        Field::FieldStruct { .. } => None,
         Field::FieldOption { data_type } | Field::FieldVec { data_type } => match *data_type {
           Field::FieldStruct { .. } => None,
           simple_type => Some(simple_type_visitor(simple_type)),
-- 
2.43.0


From dd0de70360d8f49ce6793546d4135b22d39b579a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:49 +0000
Subject: [PATCH 27/36] fix: raw identifiers are written without their r#

---
 yaserde_derive/src/primitives.rs | 3 ++-
 yaserde_derive/src/ser/label.rs  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/yaserde_derive/src/primitives.rs b/yaserde_derive/src/primitives.rs
index ef5f2e0..26e35dd 100644
--- a/yaserde_derive/src/primitives.rs
+++ b/yaserde_derive/src/primitives.rs
@@ -4,13 +4,14 @@
 use proc_macro::TokenStream;
 use proc_macro2::TokenStream as TokenStream2;
 use quote::quote;
+use syn::ext::IdentExt;
 use syn::{parse_macro_input, DeriveInput};
 
 pub fn primitive_yaserde(input: TokenStream) -> TokenStream {
   let ast = parse_macro_input!(input as DeriveInput);
 
   let struct_name = &ast.ident;
-  let struct_name_literal = &ast.ident.to_string();
+  let struct_name_literal = &ast.ident.unraw().to_string();
 
   let serde = quote! {
       impl ::yaserde::YaSerialize for #struct_name {
diff --git a/yaserde_derive/src/ser/label.rs b/yaserde_derive/src/ser/label.rs
index 89998a5..bc3a0bb 100644
--- a/yaserde_derive/src/ser/label.rs
+++ b/yaserde_derive/src/ser/label.rs
@@ -1,5 +1,6 @@
 use crate::common::YaSerdeAttribute;
 use proc_macro2::Ident;
+use syn::ext::IdentExt;
 
 pub fn build_label_name(
   label: &Ident,
@@ -18,7 +19,7 @@ pub fn build_label_name(
   let label = field_attrs
     .rename
     .clone()
-    .unwrap_or_else(|| label.to_string());
+    .unwrap_or_else(|| label.unraw().to_string());
 
   format!("{}{}", prefix, label)
 }
-- 
2.43.0


From 5368efe4d4522a9c7086cce6bd7f88a76fbfd3f5 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:32 +0000
Subject: [PATCH 28/36] fix: the content of an enum variant at the root is read
 as its own element

---
 yaserde/src/de/mod.rs                | 13 +++++++++++++
 yaserde_derive/src/de/expand_enum.rs | 10 ++++++++--
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/yaserde/src/de/mod.rs b/yaserde/src/de/mod.rs
index ec3b096..5c586fe 100644
--- a/yaserde/src/de/mod.rs
+++ b/yaserde/src/de/mod.rs
@@ -32,6 +32,7 @@ pub struct Deserializer<R: Read> {
   depth: usize,
   reader: EventReader<R>,
   peeked: Option<XmlEvent>,
+  root_matched: bool,
 }
 
 impl<R: Read> Deserializer<R> {
@@ -40,6 +41,7 @@ impl<R: Read> Deserializer<R> {
       depth: 0,
       reader,
       peeked: None,
+      root_matched: false,
     }
   }
 
@@ -117,6 +119,17 @@ impl<R: Read> Deserializer<R> {
     self.depth
   }
 
+  /// Whether an enum already matched the root element to one of its variants
+  #[doc(hidden)]
+  pub fn root_matched(&self) -> bool {
+    self.root_matched
+  }
+
+  #[doc(hidden)]
+  pub fn set_root_matched(&mut self, root_matched: bool) {
+    self.root_matched = root_matched;
+  }
+
   pub fn read_inner_value<T, F: FnOnce(&mut Self) -> Result<T, String>>(
     &mut self,
     f: F,
diff --git a/yaserde_derive/src/de/expand_enum.rs b/yaserde_derive/src/de/expand_enum.rs
index 4e2e1b8..03d8b5c 100644
--- a/yaserde_derive/src/de/expand_enum.rs
+++ b/yaserde_derive/src/de/expand_enum.rs
@@ -63,6 +63,9 @@ pub fn parse(
           };
 
         let start_depth = reader.depth();
+        // The content of a variant has the element of the variant as its own element
+        let root_matched = reader.root_matched();
+        reader.set_root_matched(false);
         ::yaserde::__derive_debug!("Enum {} @ {}: start to parse {:?}", stringify!(#name), start_depth, named_element);
 
         if reader.depth() == 0 {
@@ -81,7 +84,7 @@ pub fn parse(
                 // Consume own element first, it may share its name with a variant
                 own_element if #has_own_element
                   && reader.depth() == start_depth
-                  && (start_depth > 0 || own_element == #root) =>
+                  && (start_depth > 0 || root_matched || own_element == #root) =>
                 {
                   let _root = reader.next_event()?;
                 }
@@ -271,7 +274,10 @@ fn build_unnamed_visitor_calls(
       let call_struct_visitor = |struct_name, action| {
         Some(quote! {
           let variant_depth = reader.depth();
-          match <#struct_name as ::yaserde::YaDeserialize>::deserialize(reader) {
+          reader.set_root_matched(variant_depth == 0);
+          let result = <#struct_name as ::yaserde::YaDeserialize>::deserialize(reader);
+          reader.set_root_matched(false);
+          match result {
             Ok(value) => {
               #action;
               let _root = reader.next_event();
-- 
2.43.0


From 921d9e2c14de3f8a587b4da94f8d93e3b4b1a329 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:32 +0000
Subject: [PATCH 29/36] fix: optional and repeated fields of a variant with
 named fields are written

---
 yaserde_derive/src/ser/expand_enum.rs | 98 +++++++++++----------------
 1 file changed, 41 insertions(+), 57 deletions(-)

diff --git a/yaserde_derive/src/ser/expand_enum.rs b/yaserde_derive/src/ser/expand_enum.rs
index 4812775..deb8eb2 100644
--- a/yaserde_derive/src/ser/expand_enum.rs
+++ b/yaserde_derive/src/ser/expand_enum.rs
@@ -157,65 +157,49 @@ fn inner_enum_inspector(
 
               let field_label_name = field.renamed_label(root_attributes);
 
-              match field.get_type() {
-                Field::FieldString
-                | Field::FieldBool
-                | Field::FieldU8
-                | Field::FieldI8
-                | Field::FieldU16
-                | Field::FieldI16
-                | Field::FieldU32
-                | Field::FieldI32
-                | Field::FieldF32
-                | Field::FieldU64
-                | Field::FieldI64
-                | Field::FieldF64 => Some({
-                  quote! {
-                    match self {
-                      &#name::#label { ref #field_label, .. } => {
-                        let struct_start_event =
-                          ::yaserde::__xml::writer::XmlEvent::start_element(#field_label_name);
-                        writer.write(struct_start_event).map_err(|e| e.to_string())?;
+              let write_item = |data_type: &Field| match data_type {
+                Field::FieldStruct { .. } => quote! {
+                  writer.set_start_event_name(
+                    ::std::option::Option::Some(#field_label_name.to_string()),
+                  );
+                  writer.set_skip_start_end(false);
+                  ::yaserde::YaSerialize::serialize(yaserde_item, writer)?;
+                },
+                _simple_type => quote! {
+                  let struct_start_event =
+                    ::yaserde::__xml::writer::XmlEvent::start_element(#field_label_name);
+                  writer.write(struct_start_event).map_err(|e| e.to_string())?;
 
-                        let string_value = #field_label.to_string();
-                        let data_event = ::yaserde::__xml::writer::XmlEvent::characters(&string_value);
-                        writer.write(data_event).map_err(|e| e.to_string())?;
+                  let string_value = yaserde_item.to_string();
+                  let data_event = ::yaserde::__xml::writer::XmlEvent::characters(&string_value);
+                  writer.write(data_event).map_err(|e| e.to_string())?;
 
-                        let struct_end_event = ::yaserde::__xml::writer::XmlEvent::end_element();
-                        writer.write(struct_end_event).map_err(|e| e.to_string())?;
-                      },
-                      _ => {},
-                    }
-                  }
-                }),
-                Field::FieldStruct { .. } => Some(quote! {
-                  match self {
-                    &#name::#label{ref #field_label, ..} => {
-                      writer.set_start_event_name(
-                        ::std::option::Option::Some(#field_label_name.to_string()),
-                      );
-                      writer.set_skip_start_end(false);
-                      ::yaserde::YaSerialize::serialize(#field_label, writer)?;
-                    },
-                    _ => {}
-                  }
-                }),
-                Field::FieldVec { .. } => Some(quote! {
-                  match self {
-                    &#name::#label { ref #field_label, .. } => {
-                      for item in #field_label {
-                        writer.set_start_event_name(
-                          ::std::option::Option::Some(#field_label_name.to_string()),
-                        );
-                        writer.set_skip_start_end(false);
-                        ::yaserde::YaSerialize::serialize(item, writer)?;
-                      }
-                    },
-                    _ => {}
-                  }
-                }),
-                Field::FieldOption { .. } => None,
-              }
+                  let struct_end_event = ::yaserde::__xml::writer::XmlEvent::end_element();
+                  writer.write(struct_end_event).map_err(|e| e.to_string())?;
+                },
+              };
+
+              let write_field = match field.get_type() {
+                Field::FieldOption { data_type } | Field::FieldVec { data_type } => {
+                  let write = write_item(&data_type);
+
+                  quote! { for yaserde_item in yaserde_field.iter() { #write } }
+                }
+                data_type => {
+                  let write = write_item(&data_type);
+
+                  quote! { let yaserde_item = yaserde_field; #write }
+                }
+              };
+
+              Some(quote! {
+                match self {
+                  &#name::#label { #field_label: ref yaserde_field, .. } => {
+                    #write_field
+                  },
+                  _ => {},
+                }
+              })
             })
             .collect();
 
-- 
2.43.0


From 8e311104f11717676e2bb178e3803871ab737eba Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:28 +0000
Subject: [PATCH 30/36] fix: fields of a variant with named fields follow their
 conditions

---
 yaserde_derive/src/ser/expand_enum.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/yaserde_derive/src/ser/expand_enum.rs b/yaserde_derive/src/ser/expand_enum.rs
index deb8eb2..851fe4a 100644
--- a/yaserde_derive/src/ser/expand_enum.rs
+++ b/yaserde_derive/src/ser/expand_enum.rs
@@ -192,9 +192,19 @@ fn inner_enum_inspector(
                 }
               };
 
+              let skip_serializing = field.is_skip_serializing();
+              let skip_if = field
+                .get_skip_serializing_if_function()
+                .map(|skip_if_function| quote!(&& !self.#skip_if_function(yaserde_field)));
+              let default_condition = field
+                .get_default_function()
+                .map(|default_function| quote!(&& *yaserde_field != #default_function()));
+
               Some(quote! {
                 match self {
-                  &#name::#label { #field_label: ref yaserde_field, .. } => {
+                  &#name::#label { #field_label: ref yaserde_field, .. }
+                    if !#skip_serializing #skip_if #default_condition =>
+                  {
                     #write_field
                   },
                   _ => {},
-- 
2.43.0


From ad2ea48496f8095a4bdbf43e27fec64e24539d1c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:47 +0000
Subject: [PATCH 31/36] fix: the value of an attribute of a struct or newtype
 is its text

---
 yaserde/src/ser/mod.rs                  | 15 +++++++++++++++
 yaserde_derive/src/de/expand_struct.rs  |  2 ++
 yaserde_derive/src/ser/expand_struct.rs |  6 +++---
 3 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/yaserde/src/ser/mod.rs b/yaserde/src/ser/mod.rs
index 72039cc..1fec6b9 100644
--- a/yaserde/src/ser/mod.rs
+++ b/yaserde/src/ser/mod.rs
@@ -42,6 +42,21 @@ pub fn to_string_content<T: YaSerialize>(model: &T) -> Result<String, String> {
   Ok(data.into())
 }
 
+/// The text of a value, which is escaped when it is written as an attribute
+#[doc(hidden)]
+pub fn to_attribute_value<T: YaSerialize>(model: &T) -> Result<String, String> {
+  let content = to_string_content(model)?;
+  if content.contains('<') {
+    return Ok(content);
+  }
+  Ok(
+    content
+      .replace("&lt;", "<")
+      .replace("&gt;", ">")
+      .replace("&amp;", "&"),
+  )
+}
+
 pub fn serialize_with_writer_content<W: Write, T: YaSerialize>(
   model: &T,
   writer: W,
diff --git a/yaserde_derive/src/de/expand_struct.rs b/yaserde_derive/src/de/expand_struct.rs
index 9d795c6..c8f292b 100644
--- a/yaserde_derive/src/de/expand_struct.rs
+++ b/yaserde_derive/src/de/expand_struct.rs
@@ -88,6 +88,8 @@ pub fn parse(
               self,
               v: &str,
             ) -> ::std::result::Result<Self::Value, ::std::string::String> {
+              // The value of an attribute is text, not markup
+              let v = ::yaserde::__xml::escape::escape_str_pcdata(v);
               let content = format!("{}{}{}", #xml_opening, v, #xml_closing);
               ::yaserde::de::from_str(&content)
             }
diff --git a/yaserde_derive/src/ser/expand_struct.rs b/yaserde_derive/src/ser/expand_struct.rs
index 922a4cc..aa11fd2 100644
--- a/yaserde_derive/src/ser/expand_struct.rs
+++ b/yaserde_derive/src/ser/expand_struct.rs
@@ -96,7 +96,7 @@ pub fn serialize(
                 .as_ref()
                 .map_or_else(
                   || ::std::result::Result::Ok(::std::string::String::new()),
-                  |v| ::yaserde::ser::to_string_content(v),
+                  |v| ::yaserde::ser::to_attribute_value(v),
                 )?
               }),
               quote!({
@@ -110,14 +110,14 @@ pub fn serialize(
             Field::FieldOption { .. } => unimplemented!(),
           },
           Field::FieldStruct { .. } => field.ser_wrap_default_attribute(
-            Some(quote! { ::yaserde::ser::to_string_content(&self.#label)? }),
+            Some(quote! { ::yaserde::ser::to_attribute_value(&self.#label)? }),
             quote!({
               struct_start_event.attr(#label_name, &yaserde_inner)
             }),
           ),
           Field::FieldVec { data_type } => {
             let item_to_string = match *data_type {
-              Field::FieldStruct { .. } => quote!(::yaserde::ser::to_string_content(item)?),
+              Field::FieldStruct { .. } => quote!(::yaserde::ser::to_attribute_value(item)?),
               _ => quote!(item.to_string()),
             };
 
-- 
2.43.0


From 3f6237cadf815657583812077c42e81400204e44 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:47 +0000
Subject: [PATCH 32/36] fix: attributes of one name in several namespaces reach
 their own fields

---
 yaserde_derive/src/de/expand_struct.rs | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/yaserde_derive/src/de/expand_struct.rs b/yaserde_derive/src/de/expand_struct.rs
index c8f292b..8c6a9c5 100644
--- a/yaserde_derive/src/de/expand_struct.rs
+++ b/yaserde_derive/src/de/expand_struct.rs
@@ -239,10 +239,26 @@ pub fn parse(
       let label_name = field.renamed_label_without_namespace();
       let visitor_label = field.get_visitor_ident(None);
 
+      // The namespaces in which an attribute of that name belongs to another field
+      let namespace = field.prefix_namespace(root_attributes);
+      let other_namespaces: Vec<String> = data_struct
+        .fields
+        .iter()
+        .map(|field| YaSerdeField::new(field.clone()))
+        .filter(|other| {
+          other.is_attribute() && other.renamed_label_without_namespace() == label_name
+        })
+        .map(|other| other.prefix_namespace(root_attributes))
+        .filter(|other| *other != namespace)
+        .collect();
+      let in_other_namespace = quote! {
+        false #(|| attr.name.namespace.as_deref().unwrap_or_default() == #other_namespaces)*
+      };
+
       let visit = |action: &TokenStream, visitor: &Ident, visitor_label: &Ident| {
         Some(quote! {
           for attr in attributes {
-            if attr.name.local_name == #label_name {
+            if attr.name.local_name == #label_name && !(#in_other_namespace) {
               let visitor = #visitor_label{};
               let value = visitor.#visitor(&attr.value)?;
               #label #action;
@@ -254,7 +270,7 @@ pub fn parse(
       let visit_vec = |action: &TokenStream, visitor: &Ident, visitor_label: &Ident| {
         Some(quote! {
           for attr in attributes {
-            if attr.name.local_name == #label_name {
+            if attr.name.local_name == #label_name && !(#in_other_namespace) {
               for value in attr.value.split_whitespace() {
                 let visitor = #visitor_label{};
                 let value = visitor.#visitor(value)?;
@@ -268,7 +284,7 @@ pub fn parse(
       let visit_string = || {
         Some(quote! {
           for attr in attributes {
-            if attr.name.local_name == #label_name {
+            if attr.name.local_name == #label_name && !(#in_other_namespace) {
               #label = Some(attr.value.to_owned());
             }
           }
-- 
2.43.0


From 7f7f2f8f12eb99e782c5a9f98d99009190951d8b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:47 +0000
Subject: [PATCH 33/36] fix: the items of a list of optional structs are
 written under the name of the field

---
 yaserde_derive/src/ser/expand_struct.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yaserde_derive/src/ser/expand_struct.rs b/yaserde_derive/src/ser/expand_struct.rs
index aa11fd2..ade3226 100644
--- a/yaserde_derive/src/ser/expand_struct.rs
+++ b/yaserde_derive/src/ser/expand_struct.rs
@@ -353,7 +353,7 @@ pub fn serialize(
             #conditions {
               for item in &self.#label {
                 if let Some(value) = item {
-                  writer.set_start_event_name(None);
+                  writer.set_start_event_name(::std::option::Option::Some(#label_name.to_string()));
                   writer.set_skip_start_end(false);
                   ::yaserde::YaSerialize::serialize(value, writer)?;
                 }
-- 
2.43.0


From a17c5b46c53486504434499f05789296fa72c207 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:10 +0000
Subject: [PATCH 34/36] fix: skip_element reports the end of the document
 instead of reading it forever

---
 yaserde/src/de/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/yaserde/src/de/mod.rs b/yaserde/src/de/mod.rs
index 5c586fe..138fc6b 100644
--- a/yaserde/src/de/mod.rs
+++ b/yaserde/src/de/mod.rs
@@ -109,7 +109,11 @@ impl<R: Read> Deserializer<R> {
     let depth = self.depth;
 
     while self.depth >= depth {
-      cb(&self.next_event()?);
+      let event = self.next_event()?;
+      if let XmlEvent::EndDocument = event {
+        return Err("End of document, missing some content ?".to_string());
+      }
+      cb(&event);
     }
 
     Ok(())
-- 
2.43.0


From 71d5c2ce3f218e21738a63ad379b96e5eb105296 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:28 +0000
Subject: [PATCH 35/36] fix: declared namespaces are escaped where they are
 written

---
 yaserde_derive/src/ser/namespace.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/yaserde_derive/src/ser/namespace.rs b/yaserde_derive/src/ser/namespace.rs
index 67f9655..50f0aab 100644
--- a/yaserde_derive/src/ser/namespace.rs
+++ b/yaserde_derive/src/ser/namespace.rs
@@ -7,6 +7,12 @@ pub fn generate_namespaces_definition(attributes: &YaSerdeAttribute) -> TokenStr
     .namespaces
     .iter()
     .map(|(prefix, namespace)| {
+      // The writer escapes the values of attributes, but not the namespaces
+      let namespace = namespace
+        .replace('&', "&amp;")
+        .replace('<', "&lt;")
+        .replace('"', "&quot;");
+
       if attributes.default_namespace.as_deref().eq(&Some(prefix)) {
         quote!(
           .default_ns(#namespace)
-- 
2.43.0


From 7c7aa2efe2ebc1e1379e1aa01fa632d0818e39ed Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:42 +0000
Subject: [PATCH 36/36] fix: flattened fields see elements with namespaces that
 hold an ampersand

---
 yaserde/src/de/mod.rs                  | 36 +++++++++++++++++++++++++-
 yaserde_derive/src/de/expand_struct.rs |  2 +-
 2 files changed, 36 insertions(+), 2 deletions(-)

diff --git a/yaserde/src/de/mod.rs b/yaserde/src/de/mod.rs
index 138fc6b..822288e 100644
--- a/yaserde/src/de/mod.rs
+++ b/yaserde/src/de/mod.rs
@@ -2,9 +2,13 @@
 //!
 
 use crate::YaDeserialize;
-use std::io::Read;
+use std::borrow::Cow;
+use std::io::{Read, Write};
+use xml::escape::escape_str_attribute;
 use xml::name::OwnedName;
+use xml::namespace::Namespace;
 use xml::reader::{EventReader, ParserConfig, XmlEvent};
+use xml::writer::EventWriter;
 
 pub fn from_str<T: YaDeserialize>(s: &str) -> Result<T, String> {
   from_reader(s.as_bytes())
@@ -28,6 +32,36 @@ pub fn from_reader<R: Read, T: YaDeserialize>(reader: R) -> Result<T, String> {
   Ok(value)
 }
 
+/// Writes an event that was read. The writer escapes text and attributes, but not the namespaces.
+#[doc(hidden)]
+pub fn write_event<W: Write>(
+  writer: &mut EventWriter<W>,
+  event: &XmlEvent,
+) -> xml::writer::Result<()> {
+  if let XmlEvent::StartElement {
+    name,
+    attributes,
+    namespace,
+  } = event
+  {
+    let namespace = namespace
+      .0
+      .iter()
+      .map(|(prefix, uri)| (prefix.clone(), escape_str_attribute(uri).into_owned()))
+      .collect();
+
+    return writer.write(xml::writer::XmlEvent::StartElement {
+      name: name.borrow(),
+      attributes: attributes.iter().map(|attribute| attribute.borrow()).collect(),
+      namespace: Cow::Owned(Namespace(namespace)),
+    });
+  }
+
+  event
+    .as_writer_event()
+    .map_or(Ok(()), |event| writer.write(event))
+}
+
 pub struct Deserializer<R: Read> {
   depth: usize,
   reader: EventReader<R>,
diff --git a/yaserde_derive/src/de/expand_struct.rs b/yaserde_derive/src/de/expand_struct.rs
index 8c6a9c5..a3ba6dd 100644
--- a/yaserde_derive/src/de/expand_struct.rs
+++ b/yaserde_derive/src/de/expand_struct.rs
@@ -587,7 +587,7 @@ fn build_code_for_unused_xml_events(
     }),
     Some(quote! {
       if let ::std::option::Option::Some(ref mut w) = writer {
-        if w.write(event.as_writer_event().unwrap()).is_err() {
+        if ::yaserde::de::write_event(w, &event).is_err() {
           writer = ::std::option::Option::None;
         }
       }
-- 
2.43.0

