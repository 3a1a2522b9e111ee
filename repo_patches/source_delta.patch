From a50c25824cbc546ccb63f2ecab55d7eb26e027a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:24 +0000
Subject: [PATCH 01/15] fix: do not panic when a date value starts with a
 multi-byte character

---
 src/property.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/property.rs b/src/property.rs
index 7b39a64..0b4a675 100644
--- a/src/property.rs
+++ b/src/property.rs
@@ -539,8 +539,8 @@ impl FromStr for DateAndOrTime {
     type Err = Error;
 
     fn from_str(s: &str) -> Result<Self> {
-        if !s.is_empty() && &s[0..1] == "T" {
-            return Ok(Self::Time(parse_time(&s[1..])?));
+        if let Some(time) = s.strip_prefix('T') {
+            return Ok(Self::Time(parse_time(time)?));
         }
 
         match parse_date_time(s) {
-- 
2.43.0


From f1bf4305262c50649dbfdc9db56cedd0c737ea1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:24 +0000
Subject: [PATCH 02/15] fix: keep the sign of UTC offsets between zero and
 minus one hour

---
 src/property.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/property.rs b/src/property.rs
index 0b4a675..768a422 100644
--- a/src/property.rs
+++ b/src/property.rs
@@ -759,7 +759,7 @@ impl From<UtcOffset> for UtcOffsetProperty {
 impl fmt::Display for UtcOffsetProperty {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         let (h, m, _) = self.value.as_hms();
-        let sign = if h >= 0 { '+' } else { '-' };
+        let sign = if self.value.is_negative() { '-' } else { '+' };
         let h = h.abs();
         let m = m.abs();
         let h = if h < 10 {
-- 
2.43.0


From bb18d4f26b19da9d282c63c9d19fb360498236ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:24 +0000
Subject: [PATCH 03/15] fix: parse an empty quoted parameter value as an empty
 string

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index b6a0680..1b151ce 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -472,7 +472,7 @@ impl<'s> VcardParser<'s> {
                 let mut value = &source[begin..end];
 
                 // Remove double quotes if necessary
-                if value.len() >= 2 && quoted {
+                if quoted {
                     value = &source[begin + 1..end];
                 }
 
-- 
2.43.0


From 5c9320ffa881a28b686cdcaa30859fe568235a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:27 +0000
Subject: [PATCH 04/15] fix: match TZ and GEO case insensitively and allow a
 group prefix

---
 src/parser.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 1b151ce..2545b7d 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -26,15 +26,15 @@ pub(crate) enum Token {
     Version,
 
     // Special case shared between property and parameter
-    #[token("TZ")]
+    #[regex("(?i:TZ)")]
     TimeZone,
 
     // Special case shared between property and parameter
-    #[token("GEO")]
+    #[regex("(?i:GEO)")]
     Geo,
 
     #[regex(
-        "(?i:([a-z0-9-]+\\.)?(SOURCE|KIND|FN|N|NICKNAME|PHOTO|BDAY|ANNIVERSARY|GENDER|ADR|TEL|EMAIL|IMPP|LANG|TITLE|ROLE|LOGO|ORG|MEMBER|RELATED|CATEGORIES|NOTE|PRODID|REV|SOUND|UID|CLIENTPIDMAP|URL|KEY|FBURL|CALADRURI|CALURI|XML|VERSION|(X-[a-z0-9-]+)))"
+        "(?i:([a-z0-9-]+\\.)?(SOURCE|KIND|FN|N|NICKNAME|PHOTO|BDAY|ANNIVERSARY|GENDER|ADR|TEL|EMAIL|IMPP|LANG|TITLE|ROLE|LOGO|ORG|MEMBER|RELATED|CATEGORIES|NOTE|PRODID|REV|SOUND|UID|CLIENTPIDMAP|URL|KEY|FBURL|CALADRURI|CALURI|XML|VERSION|(X-[a-z0-9-]+))|[a-z0-9-]+\\.(TZ|GEO))"
     )]
     PropertyName,
 
-- 
2.43.0


From 701cde54cc98b8e3eb7fa6782e7ea6cbb165c207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:27 +0000
Subject: [PATCH 05/15] fix: accept VALUE=text for the TZ property

---
 src/parser.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 2545b7d..e9673fe 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -694,6 +694,15 @@ impl<'s> VcardParser<'s> {
 
                 if let Some(value_type) = value_type {
                     match value_type {
+                        ValueType::Text => {
+                            card.timezone.push(TimeZoneProperty::Text(
+                                TextProperty {
+                                    value: value.into_owned(),
+                                    parameters,
+                                    group,
+                                },
+                            ));
+                        }
                         ValueType::UtcOffset => {
                             let mut value: UtcOffsetProperty =
                                 value.as_ref().parse()?;
-- 
2.43.0


From 4a31fb66b70db547aee5a0fc6a5d0ea871196732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:42 +0000
Subject: [PATCH 06/15] fix: reject a newline inside a parameter value

---
 src/parser.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index e9673fe..033fb88 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -442,6 +442,11 @@ impl<'s> VcardParser<'s> {
                 )));
             }
 
+            // Parameter values must not span content lines
+            if token == Ok(Token::NewLine) {
+                return Err(Error::DelimiterExpected);
+            }
+
             if token == Ok(Token::FoldedLine)
                 || token == Ok(Token::EscapedNewLine)
                 || token == Ok(Token::EscapedComma)
-- 
2.43.0


From 39dc09c8ede9987bb9ed03656e081a8349ac5839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:09 +0000
Subject: [PATCH 07/15] fix: report a vCard that ends before END:VCARD as an
 error

---
 src/parser.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 033fb88..f894fdd 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -157,7 +157,7 @@ impl<'s> VcardParser<'s> {
     ) -> Result<()> {
         while let Some(first) = lex.next() {
             if first == Ok(Token::End) {
-                break;
+                return Ok(());
             }
             if let Ok(Token::Version) = first {
                 return Err(Error::VersionMisplaced);
@@ -179,7 +179,8 @@ impl<'s> VcardParser<'s> {
                 return Err(e);
             }
         }
-        Ok(())
+        // Source ended before END:VCARD
+        Err(Error::TokenExpected)
     }
 
     /// Parse a single property.
-- 
2.43.0


From 1c760bbf0987553f88f91d832db9ad427f4b0857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:56 +0000
Subject: [PATCH 08/15] fix: ignore the entire content line when a property
 fails in loose mode

---
 src/parser.rs | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index f894fdd..86fc494 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -163,7 +163,10 @@ impl<'s> VcardParser<'s> {
                 return Err(Error::VersionMisplaced);
             }
 
-            self.assert_token(
+            // A new vCard must not start before END:VCARD
+            let begin = first == Ok(Token::Begin);
+
+            let result = match self.assert_token(
                 Some(&first),
                 &[
                     Token::PropertyName,
@@ -171,18 +174,34 @@ impl<'s> VcardParser<'s> {
                     Token::TimeZone,
                     Token::Geo,
                 ],
-            )?;
+            ) {
+                Ok(()) => self.parse_property(lex, first, card),
+                Err(e) => Err(e),
+            };
 
-            if let Err(e) = self.parse_property(lex, first, card)
-                && self.strict
-            {
-                return Err(e);
+            if let Err(e) = result {
+                if self.strict || begin {
+                    return Err(e);
+                }
+                self.skip_line(lex);
             }
         }
         // Source ended before END:VCARD
         Err(Error::TokenExpected)
     }
 
+    /// Skip the remainder of a content line that could not be parsed.
+    fn skip_line(&self, lex: &mut Lexer<'_, Token>) {
+        if !lex.slice().ends_with('\n') {
+            let remainder = lex.remainder();
+            let length = match remainder.find('\n') {
+                Some(pos) => pos + 1,
+                None => remainder.len(),
+            };
+            lex.bump(length);
+        }
+    }
+
     /// Parse a single property.
     fn parse_property(
         &self,
-- 
2.43.0


From befdaeda74c1e9eb4a131a1f6b0814d2ed3b1969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:16 +0000
Subject: [PATCH 09/15] fix: unfold content lines before tokenizing so a fold
 may occur anywhere

---
 src/parser.rs | 53 ++++++++++++++++++++++++++++++++++-----------------
 1 file changed, 36 insertions(+), 17 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 86fc494..3a6b8eb 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -58,9 +58,6 @@ pub(crate) enum Token {
     #[token(":")]
     PropertyDelimiter,
 
-    #[regex("\\r?\\n( |\\t)")]
-    FoldedLine,
-
     #[token("\\,")]
     EscapedComma,
 
@@ -92,13 +89,16 @@ pub(crate) enum Token {
 /// Parses vCards from a string.
 pub(crate) struct VcardParser<'s> {
     strict: bool,
-    pub(crate) source: &'s str,
+    pub(crate) source: Cow<'s, str>,
 }
 
 impl<'s> VcardParser<'s> {
     /// Create a new parser.
     pub fn new(source: &'s str, strict: bool) -> Self {
-        Self { source, strict }
+        Self {
+            source: unfold(source),
+            strict,
+        }
     }
 
     /// Parse a UTF-8 encoded string into a list of vCards.
@@ -126,8 +126,8 @@ impl<'s> VcardParser<'s> {
     }
 
     /// Get a lexer for the current source.
-    pub(crate) fn lexer(&self) -> Lexer<'s, Token> {
-        Token::lexer(self.source)
+    pub(crate) fn lexer(&self) -> Lexer<'_, Token> {
+        Token::lexer(self.source.as_ref())
     }
 
     /// Parse a single vCard.
@@ -451,7 +451,7 @@ impl<'s> VcardParser<'s> {
     ) -> Result<(String, LexResult<Token>, bool)> {
         let mut first_range: Option<Range<usize>> = None;
         let mut quoted = false;
-        let mut is_folded_or_escaped = false;
+        let mut is_escaped = false;
 
         while let Some(mut token) = lex.next() {
             let span = lex.span();
@@ -467,12 +467,11 @@ impl<'s> VcardParser<'s> {
                 return Err(Error::DelimiterExpected);
             }
 
-            if token == Ok(Token::FoldedLine)
-                || token == Ok(Token::EscapedNewLine)
+            if token == Ok(Token::EscapedNewLine)
                 || token == Ok(Token::EscapedComma)
                 || token == Ok(Token::EscapedBackSlash)
             {
-                is_folded_or_escaped = true;
+                is_escaped = true;
             }
 
             let completed = if first_range.is_some() && quoted {
@@ -515,7 +514,7 @@ impl<'s> VcardParser<'s> {
                     };
                 }
 
-                let value = if is_folded_or_escaped {
+                let value = if is_escaped {
                     unescape_value(value)
                 } else {
                     value.to_string()
@@ -1049,8 +1048,7 @@ impl<'s> VcardParser<'s> {
                 )));
             }
 
-            if token == Ok(Token::FoldedLine)
-                || token == Ok(Token::EscapedSemiColon)
+            if token == Ok(Token::EscapedSemiColon)
                 || token == Ok(Token::EscapedComma)
                 || token == Ok(Token::EscapedNewLine)
                 || token == Ok(Token::EscapedBackSlash)
@@ -1070,9 +1068,7 @@ impl<'s> VcardParser<'s> {
             if needs_transform {
                 let mut value = String::new();
                 for (token, span) in tokens {
-                    if token == Ok(Token::FoldedLine) {
-                        continue;
-                    } else if token == Ok(Token::EscapedComma) {
+                    if token == Ok(Token::EscapedComma) {
                         value.push(',');
                         continue;
                     } else if token == Ok(Token::EscapedSemiColon) {
@@ -1162,6 +1158,29 @@ impl<'s> VcardParser<'s> {
     }
 }
 
+/// Unfold content lines before parsing as a fold may occur
+/// anywhere in a content line.
+fn unfold(source: &str) -> Cow<'_, str> {
+    if !source.contains("\n ") && !source.contains("\n\t") {
+        return Cow::Borrowed(source);
+    }
+    let mut value = String::with_capacity(source.len());
+    let mut rest = source;
+    while let Some(pos) = rest.find('\n') {
+        let next = &rest[pos + 1..];
+        if next.starts_with([' ', '\t']) {
+            let line = &rest[..pos];
+            value.push_str(line.strip_suffix('\r').unwrap_or(line));
+            rest = &next[1..];
+        } else {
+            value.push_str(&rest[..pos + 1]);
+            rest = next;
+        }
+    }
+    value.push_str(rest);
+    Cow::Owned(value)
+}
+
 fn parse_date_time_or_text(
     prop_name: &str,
     value: Cow<'_, str>,
-- 
2.43.0


From 51b73dfc7adca5fc98cbd083e4423ff05021b9fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:08 +0000
Subject: [PATCH 10/15] fix: split structured values on unescaped delimiters
 only

---
 src/lib.rs      | 32 ++++++++++++++++++++++++++++++++
 src/parser.rs   | 35 ++++++++++++-----------------------
 src/property.rs | 17 +++++++++--------
 3 files changed, 53 insertions(+), 31 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 5518dd1..e876a51 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -162,6 +162,38 @@ pub(crate) fn unescape_value(value: &str) -> String {
     ac.replace_all(value, replace_with)
 }
 
+/// Split a raw value into components on unescaped delimiters and
+/// unescape each of the components.
+pub(crate) fn split_escaped(
+    value: &str,
+    delimiter: char,
+    limit: usize,
+) -> Vec<String> {
+    let mut components = Vec::new();
+    let mut component = String::new();
+    let mut chars = value.chars();
+    while let Some(c) = chars.next() {
+        if c == '\\' {
+            match chars.next() {
+                Some('n') | Some('N') => component.push('\n'),
+                Some(c) => {
+                    if c != ',' && c != ';' && c != '\\' {
+                        component.push('\\');
+                    }
+                    component.push(c);
+                }
+                None => component.push('\\'),
+            }
+        } else if c == delimiter && components.len() + 1 < limit {
+            components.push(std::mem::take(&mut component));
+        } else {
+            component.push(c);
+        }
+    }
+    components.push(component);
+    components
+}
+
 pub(crate) fn escape_control(value: &str) -> String {
     let values = value
         .chars()
diff --git a/src/parser.rs b/src/parser.rs
index 3a6b8eb..18c8fa6 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -11,7 +11,7 @@ use mime::Mime;
 
 use crate::{
     Error, Result, Uri, Vcard, error::LexError, escape_control, helper::*,
-    name::*, parameter::*, property::*, unescape_value,
+    name::*, parameter::*, property::*, split_escaped, unescape_value,
 };
 
 type LexResult<T> = std::result::Result<T, LexError>;
@@ -536,7 +536,7 @@ impl<'s> VcardParser<'s> {
         parameters: Option<Parameters>,
         group: Option<String>,
     ) -> Result<()> {
-        let value = self.parse_property_value(lex)?;
+        let (value, raw) = self.parse_property_value(lex)?;
 
         let upper_name = name.to_uppercase();
 
@@ -589,11 +589,7 @@ impl<'s> VcardParser<'s> {
                 if card.name.is_some() {
                     return Err(Error::OnlyOnce(upper_name));
                 }
-                let value = value
-                    .as_ref()
-                    .split(';')
-                    .map(|s| s.to_string())
-                    .collect::<Vec<_>>();
+                let value = split_escaped(raw, ';', usize::MAX);
                 card.name = Some(TextListProperty {
                     value,
                     parameters,
@@ -665,7 +661,7 @@ impl<'s> VcardParser<'s> {
             // Delivery Addressing
             // https://www.rfc-editor.org/rfc/rfc6350#section-6.3
             ADR => {
-                let value: DeliveryAddress = value.as_ref().parse()?;
+                let value: DeliveryAddress = raw.parse()?;
                 card.address.push(AddressProperty {
                     value,
                     parameters,
@@ -796,11 +792,7 @@ impl<'s> VcardParser<'s> {
                 });
             }
             ORG => {
-                let value = value
-                    .as_ref()
-                    .split(';')
-                    .map(|s| s.to_string())
-                    .collect::<Vec<_>>();
+                let value = split_escaped(raw, ';', usize::MAX);
                 card.org.push(TextListProperty {
                     value,
                     parameters,
@@ -828,11 +820,7 @@ impl<'s> VcardParser<'s> {
             // Explanatory
             // https://www.rfc-editor.org/rfc/rfc6350#section-6.7
             CATEGORIES => {
-                let value = value
-                    .as_ref()
-                    .split(',')
-                    .map(|s| s.to_string())
-                    .collect::<Vec<_>>();
+                let value = split_escaped(raw, ',', usize::MAX);
                 card.categories.push(TextListProperty {
                     value,
                     parameters,
@@ -1025,11 +1013,12 @@ impl<'s> VcardParser<'s> {
         Ok(())
     }
 
-    /// Get the slice for the property value.
+    /// Get the unescaped property value and the slice for
+    /// the raw property value.
     fn parse_property_value<'a>(
         &self,
         lex: &'a mut Lexer<'_, Token>,
-    ) -> Result<Cow<'a, str>> {
+    ) -> Result<(Cow<'a, str>, &'a str)> {
         let mut first_range: Option<Range<usize>> = None;
         let mut last_range: Option<Range<usize>> = None;
 
@@ -1065,6 +1054,7 @@ impl<'s> VcardParser<'s> {
         }
 
         if let (Some(first), Some(last)) = (first_range, last_range) {
+            let raw = &lex.source()[first.start..last.start];
             if needs_transform {
                 let mut value = String::new();
                 for (token, span) in tokens {
@@ -1085,10 +1075,9 @@ impl<'s> VcardParser<'s> {
                     let source = lex.source();
                     value.push_str(&source[span]);
                 }
-                Ok(Cow::Owned(value))
+                Ok((Cow::Owned(value), raw))
             } else {
-                let source = lex.source();
-                Ok(Cow::Borrowed(&source[first.start..last.start]))
+                Ok((Cow::Borrowed(raw), raw))
             }
         } else {
             Err(Error::InvalidPropertyValue)
diff --git a/src/property.rs b/src/property.rs
index 768a422..68ea8b3 100644
--- a/src/property.rs
+++ b/src/property.rs
@@ -28,6 +28,7 @@ use crate::{
         parse_date_time, parse_time, parse_utc_offset,
     },
     parameter::Parameters,
+    split_escaped,
 };
 
 const INDIVIDUAL: &str = "individual";
@@ -135,7 +136,7 @@ impl FromStr for DeliveryAddress {
     type Err = Error;
 
     fn from_str(s: &str) -> Result<Self> {
-        let mut it = s.splitn(7, ';');
+        let mut it = split_escaped(s, ';', 7).into_iter();
         let po_box = it
             .next()
             .ok_or_else(|| Error::InvalidAddress(s.to_string()))?;
@@ -159,37 +160,37 @@ impl FromStr for DeliveryAddress {
             .ok_or_else(|| Error::InvalidAddress(s.to_string()))?;
 
         let po_box = if !po_box.is_empty() {
-            Some(po_box.to_owned())
+            Some(po_box)
         } else {
             None
         };
         let extended_address = if !extended_address.is_empty() {
-            Some(extended_address.to_owned())
+            Some(extended_address)
         } else {
             None
         };
         let street_address = if !street_address.is_empty() {
-            Some(street_address.to_owned())
+            Some(street_address)
         } else {
             None
         };
         let locality = if !locality.is_empty() {
-            Some(locality.to_owned())
+            Some(locality)
         } else {
             None
         };
         let region = if !region.is_empty() {
-            Some(region.to_owned())
+            Some(region)
         } else {
             None
         };
         let postal_code = if !postal_code.is_empty() {
-            Some(postal_code.to_owned())
+            Some(postal_code)
         } else {
             None
         };
         let country_name = if !country_name.is_empty() {
-            Some(country_name.to_owned())
+            Some(country_name)
         } else {
             None
         };
-- 
2.43.0


From 3d0f9c638bd8fb597d87ec4aee2aaee3be45968e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:42 +0000
Subject: [PATCH 11/15] fix: escape and quote parameter values so they can be
 parsed again

---
 src/lib.rs       |  4 ++--
 src/parameter.rs | 32 +++++++++++++++++++++++---------
 2 files changed, 25 insertions(+), 11 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index e876a51..7849290 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -156,8 +156,8 @@ pub(crate) fn escape_value(value: &str, semi_colons: bool) -> String {
 
 pub(crate) fn unescape_value(value: &str) -> String {
     use aho_corasick::AhoCorasick;
-    let patterns = &["\r", "\n ", "\n\t", "\\n", "\\N", "\\,"];
-    let replace_with = &["", "", "", "\n", "\n", ","];
+    let patterns = &["\\\\", "\\n", "\\N", "\\,"];
+    let replace_with = &["\\", "\n", "\n", ","];
     let ac = AhoCorasick::new(patterns).unwrap();
     ac.replace_all(value, replace_with)
 }
diff --git a/src/parameter.rs b/src/parameter.rs
index 5620496..f5e73a2 100644
--- a/src/parameter.rs
+++ b/src/parameter.rs
@@ -562,7 +562,7 @@ impl fmt::Display for Parameters {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         use crate::name::*;
         if let Some(language) = &self.language {
-            write!(f, ";{}={}", LANGUAGE, language)?;
+            write!(f, ";{}={}", LANGUAGE, quote_parameter(language))?;
         }
         if let Some(value) = &self.value {
             write!(f, ";{}={}", VALUE, value)?;
@@ -571,22 +571,24 @@ impl fmt::Display for Parameters {
             write!(f, ";{}={}", PREF, pref)?;
         }
         if let Some(alt_id) = &self.alt_id {
-            write!(f, ";{}=\"{}\"", ALTID, alt_id)?;
+            write!(f, ";{}=\"{}\"", ALTID, escape_parameter(alt_id))?;
         }
         if let Some(pids) = &self.pid {
             write!(f, ";{}={}", PID, comma_delimited(pids))?;
         }
         if let Some(types) = &self.types {
-            write!(f, ";{}={}", TYPE, comma_delimited(types))?;
+            let types = comma_delimited(types);
+            write!(f, ";{}={}", TYPE, quote_parameter(&types))?;
         }
         if let Some(media_type) = &self.media_type {
-            write!(f, ";{}={}", MEDIATYPE, media_type)?;
+            write!(f, ";{}={}", MEDIATYPE, quote_parameter(media_type))?;
         }
         if let Some(calscale) = &self.calscale {
-            write!(f, ";{}={}", CALSCALE, calscale)?;
+            write!(f, ";{}={}", CALSCALE, quote_parameter(calscale))?;
         }
         if let Some(sort_as) = &self.sort_as {
-            write!(f, ";{}=\"{}\"", SORT_AS, comma_delimited(sort_as))?;
+            let sort_as = comma_delimited(sort_as);
+            write!(f, ";{}=\"{}\"", SORT_AS, escape_parameter(&sort_as))?;
         }
         if let Some(geo) = &self.geo {
             write!(f, ";{}=\"{}\"", GEO, geo)?;
@@ -594,7 +596,7 @@ impl fmt::Display for Parameters {
         if let Some(tz) = &self.timezone {
             match tz {
                 TimeZoneParameter::Text(val) => {
-                    write!(f, ";{}={}", TZ, val)?;
+                    write!(f, ";{}={}", TZ, escape_parameter(val))?;
                 }
                 TimeZoneParameter::UtcOffset(val) => {
                     write!(f, ";{}=", TZ)?;
@@ -611,7 +613,8 @@ impl fmt::Display for Parameters {
         }
         if let Some(extensions) = &self.extensions {
             for (name, value) in extensions {
-                write!(f, ";{}=\"{}\"", name, comma_delimited(value))?;
+                let value = comma_delimited(value);
+                write!(f, ";{}=\"{}\"", name, escape_parameter(&value))?;
             }
         }
         Ok(())
@@ -619,7 +622,18 @@ impl fmt::Display for Parameters {
 }
 
 fn escape_parameter(s: &str) -> String {
-    s.replace('\n', "\\n")
+    s.replace('\\', "\\\\").replace('\n', "\\n")
+}
+
+/// Escape a parameter value and add double quotes when
+/// the value contains a delimiter.
+fn quote_parameter(value: &impl std::fmt::Display) -> String {
+    let value = escape_parameter(&value.to_string());
+    if value.contains([';', ':']) {
+        format!("\"{}\"", value)
+    } else {
+        value
+    }
 }
 
 fn comma_delimited(items: &[impl std::fmt::Display]) -> String {
-- 
2.43.0


From fd2474d8739b9eb405b40ccb827ec108fdaff223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:54 +0000
Subject: [PATCH 12/15] fix: match the home and work types case insensitively

---
 src/parameter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parameter.rs b/src/parameter.rs
index f5e73a2..6ca9923 100644
--- a/src/parameter.rs
+++ b/src/parameter.rs
@@ -91,7 +91,7 @@ impl FromStr for TypeParameter {
     type Err = Error;
 
     fn from_str(s: &str) -> Result<Self> {
-        match s {
+        match &s.to_lowercase()[..] {
             HOME => Ok(Self::Home),
             WORK => Ok(Self::Work),
             _ => {
-- 
2.43.0


From 6dddd6c129a3e4686bab2ef6616b34aa220d9072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:15 +0000
Subject: [PATCH 13/15] fix: advance the iterator past errors, skip trailing
 newlines and validate cards

---
 src/iter.rs | 42 +++++++++++++++++++++++++++++++++++-------
 1 file changed, 35 insertions(+), 7 deletions(-)

diff --git a/src/iter.rs b/src/iter.rs
index 7e32c7f..8ec55ef 100644
--- a/src/iter.rs
+++ b/src/iter.rs
@@ -24,21 +24,46 @@ impl<'s> VcardIterator<'s> {
     fn parse_next(&self, offset: usize) -> Result<(Vcard, Range<usize>)> {
         let mut lex = self.parser.lexer();
         lex.bump(offset);
-        while let Some(first) = lex.next() {
-            if first == Ok(Token::NewLine) {
-                continue;
-            } else {
-                return self.parser.parse_one(&mut lex, Some(first));
-            }
+        if let Some(first) = lex.next() {
+            let (card, span) =
+                self.parser.parse_one(&mut lex, Some(first))?;
+            card.validate()?;
+            return Ok((card, span));
         }
         Err(Error::TokenExpected)
     }
+
+    /// Skip newlines before the next vCard.
+    fn skip_newlines(&self, offset: usize) -> usize {
+        let mut lex = self.parser.lexer();
+        lex.bump(offset);
+        let mut start = offset;
+        while let Some(Ok(Token::NewLine)) = lex.next() {
+            start = lex.span().end;
+        }
+        start
+    }
+
+    /// Skip a vCard that could not be parsed.
+    fn skip_card(&self, offset: usize) -> usize {
+        let mut lex = self.parser.lexer();
+        lex.bump(offset);
+        let mut line_start = true;
+        while let Some(token) = lex.next() {
+            if line_start && token == Ok(Token::End) {
+                return lex.span().end;
+            }
+            line_start = token == Ok(Token::NewLine);
+        }
+        self.parser.source.len()
+    }
 }
 
 impl<'s> Iterator for VcardIterator<'s> {
     type Item = Result<Vcard>;
 
     fn next(&mut self) -> Option<Self::Item> {
+        self.offset = self.skip_newlines(self.offset);
         if self.offset >= self.parser.source.len() {
             return None;
         }
@@ -47,7 +72,10 @@ impl<'s> Iterator for VcardIterator<'s> {
                 self.offset = span.end;
                 Some(Ok(card))
             }
-            Err(e) => Some(Err(e)),
+            Err(e) => {
+                self.offset = self.skip_card(self.offset);
+                Some(Err(e))
+            }
         }
     }
 }
-- 
2.43.0


From 7c9d09ec416f0248920510a440171fa434efbeaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:27 +0000
Subject: [PATCH 14/15] fix: end unquoted parameter values at the colon of a
 BEGIN, VERSION or END token

---
 src/parser.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 18c8fa6..f497952 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -467,6 +467,22 @@ impl<'s> VcardParser<'s> {
                 return Err(Error::DelimiterExpected);
             }
 
+            // These tokens contain the property delimiter which
+            // completes an unquoted value
+            if !quoted
+                && (token == Ok(Token::Begin)
+                    || token == Ok(Token::Version)
+                    || token == Ok(Token::End))
+            {
+                let length = lex.slice().find(':').unwrap_or_default();
+                *lex = Token::lexer(lex.source());
+                lex.bump(span.start + length);
+                if first_range.is_none() {
+                    first_range = Some(span);
+                }
+                continue;
+            }
+
             if token == Ok(Token::EscapedNewLine)
                 || token == Ok(Token::EscapedComma)
                 || token == Ok(Token::EscapedBackSlash)
-- 
2.43.0


From c618a457aeadd0ee889301c1096550cf4ef0e879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:43 +0000
Subject: [PATCH 15/15] fix: return an error for schemeless URIs with a colon
 in the first segment

---
 src/uri.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/uri.rs b/src/uri.rs
index 1b94dfc..cebf082 100644
--- a/src/uri.rs
+++ b/src/uri.rs
@@ -1,6 +1,6 @@
 use crate::Error;
 use std::{fmt, str::FromStr};
-use uriparse::URI;
+use uriparse::{URI, URIError, URIReference};
 
 /// URI type for the library.
 #[derive(Debug, Clone, PartialEq, Eq)]
@@ -15,6 +15,16 @@ impl FromStr for Uri {
     type Err = Error;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        Ok(Self(URI::try_from(s)?.into_owned()))
+        // Parsing directly to a URI panics when there is no scheme and the
+        // first path segment contains a colon
+        let reference = match URIReference::try_from(s) {
+            Ok(reference) => reference,
+            Err(error) => {
+                return Err(URIError::try_from(error)
+                    .unwrap_or(URIError::NotURI)
+                    .into());
+            }
+        };
+        Ok(Self(URI::try_from(reference)?.into_owned()))
     }
 }
-- 
2.43.0

