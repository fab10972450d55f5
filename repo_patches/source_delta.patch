From a79bbca7b6d4370bc06d449d5bb09ade3589d9fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:42 +0000
Subject: [PATCH 01/11] fix: count error columns in characters, so long
 non-ASCII lines render without panicking

---
 src/parser/error.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/error.rs b/src/parser/error.rs
index 74bce1d..bcc1fcf 100644
--- a/src/parser/error.rs
+++ b/src/parser/error.rs
@@ -98,7 +98,7 @@ impl<'a> LocatedLine<'a> {
 
         let line_start_offset = input_before.rfind('\n').map(|n| n + 1).unwrap_or(0);
         let line_number = input_before.split('\n').count();
-        let column_number = offset - line_start_offset + 1;
+        let column_number = input[line_start_offset..offset].chars().count() + 1;
 
         LocatedLine {
             line: input[line_start_offset..].lines().next().unwrap_or(""),
-- 
2.43.0


From 73dbe9ffa98cad390eff8cb80d4bf5d10bc4296a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:44 +0000
Subject: [PATCH 02/11] fix: end INCLUDE marked sections at their closing
 delimiter instead of discarding content

---
 src/parser/events.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/events.rs b/src/parser/events.rs
index 029db1f..d01c0c1 100644
--- a/src/parser/events.rs
+++ b/src/parser/events.rs
@@ -175,7 +175,7 @@ where
                     |input| content(input, config, MarkedSectionEndHandling::StopParsing),
                     EventIter::from_iter,
                 ),
-                raw::marked_section_body_character_data,
+                raw::marked_section_end,
             )(input),
         },
     }
-- 
2.43.0


From c9b24d9557d983b9ff68ee3f36ae582239b1102b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:46 +0000
Subject: [PATCH 03/11] fix: report undefined entities in text, RCDATA and
 section keywords instead of backtracking over them

---
 src/parser/events.rs | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/parser/events.rs b/src/parser/events.rs
index d01c0c1..4586100 100644
--- a/src/parser/events.rs
+++ b/src/parser/events.rs
@@ -94,7 +94,9 @@ where
 {
     context("marked section declaration", |input| {
         let (rest, raw_status_keywords) = raw::marked_section_start_and_keywords(input)?;
-        let status_keywords = config.parse_markup_declaration_text(raw_status_keywords)?;
+        let status_keywords = config
+            .parse_markup_declaration_text(raw_status_keywords)
+            .map_err(unrecoverable)?;
 
         let status = match config
             .marked_section_handling
@@ -166,7 +168,9 @@ where
                 Ok((
                     rest,
                     EventIter::once(SgmlEvent::Character(
-                        config.parse_rcdata(config.trim(content))?,
+                        config
+                            .parse_rcdata(config.trim(content))
+                            .map_err(unrecoverable)?,
                     )),
                 ))
             }
@@ -343,10 +347,21 @@ where
     }
     Ok((
         rest,
-        EventIter::once(SgmlEvent::Character(config.parse_rcdata(s)?)),
+        EventIter::once(SgmlEvent::Character(
+            config.parse_rcdata(s).map_err(unrecoverable)?,
+        )),
     ))
 }
 
+/// Prevents other parsers from being attempted when an entity can't be expanded,
+/// as that would discard the error in favor of an unrelated one.
+fn unrecoverable<E>(err: nom::Err<E>) -> nom::Err<E> {
+    match err {
+        nom::Err::Error(err) => nom::Err::Failure(err),
+        err => err,
+    }
+}
+
 /// An iterator over a sequence of events.
 ///
 /// This struct exists to minimize the number of allocations during the
-- 
2.43.0


From d7e2efe0ccda67065a1df96dbdd59d4ce4692f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:47 +0000
Subject: [PATCH 04/11] fix: match nested IGNORE sections iteratively, so long
 inputs don't overflow the stack

---
 src/parser/raw.rs | 34 +++++++++++++++++++++-------------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/src/parser/raw.rs b/src/parser/raw.rs
index 31c6ece..578c8d6 100644
--- a/src/parser/raw.rs
+++ b/src/parser/raw.rs
@@ -130,20 +130,28 @@ where
     E: ParseError<&'a str> + ContextError<&'a str>,
 {
     use nom::{FindSubstring, Slice};
-    let (close_suffix, close_match) = marked_section_body_character_data(input)?;
-    match close_match.find_substring(MARKED_SECTION_START) {
-        Some(n) => {
-            let (suffix_after_matched_pair, _) =
-                context("nested marked section pair", marked_section_body_ignore)(
-                    input.slice(n + MARKED_SECTION_START.len()..),
-                )?;
-            let (final_suffix, _) = marked_section_body_ignore(suffix_after_matched_pair)?;
-            Ok((
-                final_suffix,
-                input.slice(..input.len() - final_suffix.len() - MARKED_SECTION_END.len()),
-            ))
+    // Nested pairs are tracked in a list rather than with recursion,
+    // so that the input can't exhaust the call stack
+    let mut open_pairs = vec![];
+    let mut rest = input;
+    loop {
+        let (close_suffix, close_match) =
+            marked_section_body_character_data(rest).map_err(|err: nom::Err<E>| {
+                open_pairs.iter().rev().fold(err, |err, &pair| {
+                    err.map(|e| E::add_context(pair, "nested marked section pair", e))
+                })
+            })?;
+        if let Some(n) = close_match.find_substring(MARKED_SECTION_START) {
+            rest = rest.slice(n + MARKED_SECTION_START.len()..);
+            open_pairs.push(rest);
+        } else if open_pairs.pop().is_some() {
+            rest = close_suffix;
+        } else {
+            return Ok((
+                close_suffix,
+                input.slice(..input.len() - close_suffix.len() - MARKED_SECTION_END.len()),
+            ));
         }
-        _ => Ok((close_suffix, close_match)),
     }
 }
 
-- 
2.43.0


From 895678037f37c4af3fbaae4182233247204e4bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:49 +0000
Subject: [PATCH 05/11] fix: skip nested elements iteratively, so deep
 hierarchies don't overflow the stack

---
 src/de/mod.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/de/mod.rs b/src/de/mod.rs
index 387547e..8587d0a 100644
--- a/src/de/mod.rs
+++ b/src/de/mod.rs
@@ -240,10 +240,8 @@ impl<'de> SgmlDeserializer<'de> {
             {
                 SgmlEvent::XmlCloseEmptyElement => {
                     self.stack.pop();
-                    return Ok(());
                 }
                 SgmlEvent::EndTag { name } => {
-                    self.check_stack_size(stack_size);
                     let expected = self.stack.pop().unwrap();
                     if name != expected {
                         return Err(DeserializationError::MismatchedCloseTag {
@@ -251,15 +249,14 @@ impl<'de> SgmlDeserializer<'de> {
                             found: name.to_string(),
                         });
                     }
-                    debug!("popped({}): {:?}", stack_size - 1, name);
-                    return Ok(());
-                }
-                SgmlEvent::OpenStartTag { name } => {
-                    self.stack.push(name);
-                    self.pop_elt()?;
+                    debug!("popped({}): {:?}", self.stack.len(), name);
                 }
+                SgmlEvent::OpenStartTag { name } => self.stack.push(name),
                 _ => {}
             };
+            if self.stack.len() < stack_size {
+                return Ok(());
+            }
         }
     }
 
-- 
2.43.0


From 1ba4f40f1c6d86bb480d9e2b8a0946eef1fded86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:09 +0000
Subject: [PATCH 06/11] fix: reject unsupported events after child elements
 instead of panicking or skipping them

---
 src/de/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/de/mod.rs b/src/de/mod.rs
index 8587d0a..adba5f2 100644
--- a/src/de/mod.rs
+++ b/src/de/mod.rs
@@ -295,6 +295,8 @@ impl<'de> SgmlDeserializer<'de> {
         let mut text = CowBuffer::new();
 
         loop {
+            // A child element may have ended right before an unsupported event
+            self.normalize_at_cursor()?;
             match self.peek_mut()? {
                 SgmlEvent::OpenStartTag { .. } => {
                     self.push_elt()?;
@@ -725,6 +727,8 @@ impl<'de, 'r> de::MapAccess<'de> for MapAccess<'de, 'r> {
         self.de.check_stack_size(self.stack_size);
 
         loop {
+            // The last value may have ended right before an unsupported event
+            self.de.normalize_at_cursor()?;
             break match self.de.peek_mut()? {
                 SgmlEvent::EndTag { .. } | SgmlEvent::XmlCloseEmptyElement => {
                     if self.text_content.is_some() {
-- 
2.43.0


From 4b4f28a574a80d97419a669194661d735741996f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:52 +0000
Subject: [PATCH 07/11] fix: treat XML-style empty elements as closed when
 looking for an element's content

---
 src/de/mod.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/de/mod.rs b/src/de/mod.rs
index adba5f2..0136c99 100644
--- a/src/de/mod.rs
+++ b/src/de/mod.rs
@@ -154,17 +154,26 @@ impl<'de> SgmlDeserializer<'de> {
         Ok(current)
     }
 
+    /// Peeks into the content of the element whose start tag is at the cursor.
     fn peek_content_type(&self) -> Result<PeekContentType, DeserializationError> {
+        self.peek_content_type_after(1)
+    }
+
+    /// Peeks into the content of an element, skipping the given number of events.
+    fn peek_content_type_after(
+        &self,
+        skip: usize,
+    ) -> Result<PeekContentType, DeserializationError> {
         let mut contains_attributes = false;
         let mut contains_text = false;
         let contains_child_elements = self
             .events
             .as_slice()
             .iter()
-            .skip(1)
+            .skip(skip)
             .find_map(|event| match event {
                 SgmlEvent::OpenStartTag { .. } => Some(true),
-                SgmlEvent::EndTag { .. } => Some(false),
+                SgmlEvent::EndTag { .. } | SgmlEvent::XmlCloseEmptyElement => Some(false),
                 SgmlEvent::Attribute { .. } => {
                     contains_attributes = true;
                     None
@@ -301,7 +310,7 @@ impl<'de> SgmlDeserializer<'de> {
                 SgmlEvent::OpenStartTag { .. } => {
                     self.push_elt()?;
                 }
-                SgmlEvent::EndTag { .. } => {
+                SgmlEvent::EndTag { .. } | SgmlEvent::XmlCloseEmptyElement => {
                     self.pop_elt()?;
                     if self.stack.len() == starting_stack_size {
                         break;
@@ -683,8 +692,9 @@ impl<'de, 'r> MapAccess<'de, 'r> {
     fn new(de: &'r mut SgmlDeserializer<'de>, emit_value: bool) -> Self {
         let stack_size = de.stack.len();
         let content_strategy = if emit_value {
+            // The start tag has already been consumed
             if de
-                .peek_content_type()
+                .peek_content_type_after(0)
                 .map(|content| content.contains_child_elements)
                 .unwrap_or(false)
             {
-- 
2.43.0


From 3a6e54d5c74e95817ba1944a367103e5626e7f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:28 +0000
Subject: [PATCH 08/11] fix: don't recurse forever on enum variants that carry
 another enum

---
 src/de/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/de/mod.rs b/src/de/mod.rs
index 0136c99..3322b43 100644
--- a/src/de/mod.rs
+++ b/src/de/mod.rs
@@ -915,6 +915,9 @@ impl<'de, 'r> de::VariantAccess<'de> for EnumAccess<'de, 'r> {
         if push {
             self.de.push_elt()?;
             self.de.advance_to_content()?;
+        } else if self.use_tag_name_for_variant {
+            // Otherwise, an enum as the payload would take its variant from this same tag
+            self.de.map_key = Some(self.de.expect_start_tag()?.clone().into_owned().into());
         }
         let value = seed.deserialize(self.de.borrow_mut())?;
         if push {
-- 
2.43.0


From 1fe9b11ac51761165f7bb7603f8f6ccde9e3d729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:30 +0000
Subject: [PATCH 09/11] fix: don't take the data of an enum variant given as
 text from its sibling elements

---
 src/de/mod.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/de/mod.rs b/src/de/mod.rs
index 3322b43..4de00f0 100644
--- a/src/de/mod.rs
+++ b/src/de/mod.rs
@@ -868,6 +868,18 @@ impl<'de, 'r> EnumAccess<'de, 'r> {
             use_tag_name_for_variant,
         }
     }
+
+    /// Variants given as text have no data; what comes next belongs to someone else.
+    fn expect_data(&self) -> Result<(), DeserializationError> {
+        if self.use_tag_name_for_variant {
+            Ok(())
+        } else {
+            Err(de::Error::invalid_type(
+                Unexpected::UnitVariant,
+                &"a variant with data",
+            ))
+        }
+    }
 }
 
 impl<'de, 'r> de::EnumAccess<'de> for EnumAccess<'de, 'r> {
@@ -910,6 +922,7 @@ impl<'de, 'r> de::VariantAccess<'de> for EnumAccess<'de, 'r> {
         trace!("newtype_variant");
         // If we just used the current tag name as a variant, we need to push the tag into the stack,
         // or else we might get stuck in a loop
+        self.expect_data()?;
         let push =
             self.use_tag_name_for_variant && self.de.peek_content_type()?.contains_child_elements;
         if push {
@@ -931,6 +944,7 @@ impl<'de, 'r> de::VariantAccess<'de> for EnumAccess<'de, 'r> {
         V: de::Visitor<'de>,
     {
         trace!("tuple_variant({} items)", len);
+        self.expect_data()?;
         if self.use_tag_name_for_variant {
             self.de.map_key = Some(self.de.expect_start_tag()?.clone().into_owned().into());
         }
@@ -946,6 +960,7 @@ impl<'de, 'r> de::VariantAccess<'de> for EnumAccess<'de, 'r> {
         V: de::Visitor<'de>,
     {
         trace!("struct_variant");
+        self.expect_data()?;
         self.de.do_map(visitor, fields.contains(&"$value"))
     }
 }
-- 
2.43.0


From cfda47c237f85bc4db1b76d160d1001bf21338c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:27 +0000
Subject: [PATCH 10/11] fix: fail instead of looping forever on values that
 consume no input

---
 src/de/mod.rs | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/de/mod.rs b/src/de/mod.rs
index 4de00f0..66e8ad9 100644
--- a/src/de/mod.rs
+++ b/src/de/mod.rs
@@ -347,6 +347,16 @@ impl<'de> SgmlDeserializer<'de> {
         Ok(value)
     }
 
+    /// Fails if no events were consumed since there were `previously_remaining` events left,
+    /// as then the same event would be offered to the visitor over and over.
+    fn check_progress(&self, previously_remaining: usize) -> Result<(), DeserializationError> {
+        if self.events.len() < previously_remaining {
+            Ok(())
+        } else {
+            Err(de::Error::custom("value was not consumed"))
+        }
+    }
+
     #[track_caller]
     fn check_stack_size(&self, expected_size: usize) {
         let stack = &self.stack;
@@ -800,11 +810,16 @@ impl<'de, 'r> de::MapAccess<'de> for MapAccess<'de, 'r> {
             self.de.accumulated_text = None;
             Ok(value)
         } else if let Ok(SgmlEvent::Attribute { .. }) = self.de.peek() {
-            seed.deserialize(&mut *self.de)
+            let remaining = self.de.events.len();
+            let value = seed.deserialize(&mut *self.de)?;
+            self.de.check_progress(remaining)?;
+            Ok(value)
         } else {
+            let remaining = self.de.events.len();
             self.de.map_key = self.map_key.take();
             let value = seed.deserialize(&mut *self.de)?;
             self.de.map_key = None;
+            self.de.check_progress(remaining)?;
             Ok(value)
         }
     }
@@ -846,7 +861,10 @@ impl<'de, 'r> de::SeqAccess<'de> for SeqAccess<'de, 'r> {
                         if self.de.map_key != self.tag_name {
                             self.de.map_key = self.tag_name.clone();
                         }
-                        return Ok(Some(seed.deserialize(&mut *self.de)?));
+                        let remaining = self.de.events.len();
+                        let value = seed.deserialize(&mut *self.de)?;
+                        self.de.check_progress(remaining)?;
+                        return Ok(Some(value));
                     }
                 },
                 SgmlEvent::Character(text) if text.is_empty() => self.de.advance()?,
-- 
2.43.0


From 79495cabbaae94ec58e7b2d17283345ad432b1a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:53 +0000
Subject: [PATCH 11/11] fix: normalize the case of names made of titlecase
 letters
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

Titlecase letters (such as ᾈ or ǅ) have both a lowercase and an uppercase
form, but are neither lowercase nor uppercase themselves, so names without
any other cased letter were left alone.
---
 src/parser/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 15e0f87..0aed55b 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -158,10 +158,14 @@ impl Default for NameNormalization {
 impl NameNormalization {
     pub fn normalize<'a>(&self, name: Cow<'a, str>) -> Cow<'a, str> {
         match self {
-            NameNormalization::ToLowercase if name.chars().any(char::is_uppercase) => {
+            NameNormalization::ToLowercase
+                if name.chars().any(|c| c.to_lowercase().ne(Some(c))) =>
+            {
                 name.to_lowercase().into()
             }
-            NameNormalization::ToUppercase if name.chars().any(char::is_lowercase) => {
+            NameNormalization::ToUppercase
+                if name.chars().any(|c| c.to_uppercase().ne(Some(c))) =>
+            {
                 name.to_uppercase().into()
             }
             _ => name,
-- 
2.43.0

