From f2ce2758d0662fb520292a8e37df64e3849413e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:50 +0000
Subject: [PATCH 01/15] fix: reject empty fragment in absolute IRIs and URIs

`absolute-IRI` has no fragment component, and `foo:#` has an (empty)
fragment, so it must not be accepted as an absolute IRI.
---
 src/parser/validate.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/parser/validate.rs b/src/parser/validate.rs
index 7cbcaff..00e67b0 100644
--- a/src/parser/validate.rs
+++ b/src/parser/validate.rs
@@ -196,18 +196,20 @@ pub(crate) fn validate_relative_ref<S: Spec>(i: &str) -> Result<(), Error> {
 fn validate_after_path<S: Spec>(first: u8, rest: &str, accept_fragment: bool) -> Result<(), Error> {
     let (maybe_query, maybe_fragment) = if first == b'?' {
         match find_split_hole(rest, b'#') {
-            Some(v) => v,
-            None => (rest, ""),
+            Some((maybe_query, maybe_fragment)) => (maybe_query, Some(maybe_fragment)),
+            None => (rest, None),
         }
     } else {
         debug_assert_eq!(first, b'#');
-        ("", rest)
+        ("", Some(rest))
     };
     validate_query::<S>(maybe_query)?;
-    if !accept_fragment && !maybe_fragment.is_empty() {
-        return Err(Error::with_kind(ErrorKind::UnexpectedFragment));
+    match maybe_fragment {
+        // Note that an empty fragment is still a fragment.
+        Some(_) if !accept_fragment => Err(Error::with_kind(ErrorKind::UnexpectedFragment)),
+        Some(maybe_fragment) => validate_fragment::<S>(maybe_fragment),
+        None => Ok(()),
     }
-    validate_fragment::<S>(maybe_fragment)
 }
 
 /// Returns `Ok(_)` if the string matches `fragment`/`ifragment` rules.
-- 
2.43.0


From 11f4f384d88857caa7f4e022f39416a74b022988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:42 +0000
Subject: [PATCH 02/15] fix: do not treat a userinfo without a colon as having
 a password

---
 src/mask_password.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mask_password.rs b/src/mask_password.rs
index 71d1fbf..478e54e 100644
--- a/src/mask_password.rs
+++ b/src/mask_password.rs
@@ -28,7 +28,8 @@ pub(crate) fn password_range_to_hide<S: Spec>(iri: &RiReferenceStr<S>) -> Option
             .find("//")
             .expect("`authority` component must be prefixed with `//`");
         let end = authority_start + userinfo.len();
-        let start = authority_start + userinfo.find(':').map_or_else(|| userinfo.len(), |v| v + 1);
+        // No password if the separator colon is absent.
+        let start = authority_start + userinfo.find(':')? + 1;
         Some(start..end)
     }
 
-- 
2.43.0


From 2ee1185a65398d8c483d107b29b4863f90692a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:42 +0000
Subject: [PATCH 03/15] fix: allow a fragment when replacing the host of an IRI

---
 src/types/generic/normal.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types/generic/normal.rs b/src/types/generic/normal.rs
index fcecc66..dc949ff 100644
--- a/src/types/generic/normal.rs
+++ b/src/types/generic/normal.rs
@@ -990,7 +990,7 @@ impl<S: Spec> RiString<S> {
             let strbuf = unsafe { self.as_inner_mut() };
             result = replace_domain_impl::<S>(strbuf, new_host, replace_only_reg_name);
             debug_assert_eq!(
-                RiAbsoluteStr::<S>::validate(strbuf),
+                RiStr::<S>::validate(strbuf),
                 Ok(()),
                 "replacing a host with another valid host must keep an IRI valid: raw={strbuf:?}",
             );
-- 
2.43.0


From e49db6a32e3d6212cccfaf7c9cea789267ac626b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:02 +0000
Subject: [PATCH 04/15] fix: validate path characters when building an IRI

---
 src/build.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/build.rs b/src/build.rs
index e056af6..90ff8ec 100644
--- a/src/build.rs
+++ b/src/build.rs
@@ -1311,6 +1311,7 @@ fn validate_builder_for_iri_reference<S: Spec>(builder: &Builder<'_>) -> Result<
         }
     }
 
+    parser::validate_path::<S>(builder.path)?;
     let path_is_absolute: bool;
     let mut is_path_acceptable;
     if builder.normalize {
-- 
2.43.0


From e71dca9ee50a708f96ebadfd3b0f54852538d619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:32 +0000
Subject: [PATCH 05/15] fix: keep stray percent characters when decoding
 percent-encoded bytes

---
 src/percent_encode/decode.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/percent_encode/decode.rs b/src/percent_encode/decode.rs
index 0d47dbf..5dc643d 100644
--- a/src/percent_encode/decode.rs
+++ b/src/percent_encode/decode.rs
@@ -84,7 +84,6 @@ impl<'a> PercentDecodedWhatwgBytes<'a> {
     /// 1. the suffix after the decoded percent-encoded triplet.
     #[must_use]
     fn try_non_allocating_decode(&self) -> Option<(usize, u8, &'a [u8])> {
-        let mut len_before_pct;
         let mut rest = self.not_yet_decoded;
 
         while !rest.is_empty() {
@@ -93,8 +92,9 @@ impl<'a> PercentDecodedWhatwgBytes<'a> {
             #[cfg(not(feature = "memchr"))]
             let pct_pos = rest.iter().position(|&b| b == b'%')?;
 
-            let after_pct;
-            (len_before_pct, after_pct) = (pct_pos, &rest[(pct_pos + 1)..]);
+            let after_pct = &rest[(pct_pos + 1)..];
+            // -1: the percent character.
+            let len_before_pct = self.not_yet_decoded.len() - after_pct.len() - 1;
 
             let decoded;
             (decoded, rest) = strip_decode_xdigits2(after_pct);
@@ -167,7 +167,8 @@ impl<'a> PercentDecodedWhatwgBytes<'a> {
 
             let decoded;
             (decoded, rest) = strip_decode_xdigits2(after_pct);
-            result.extend(decoded);
+            // A stray percent character is not decoded.
+            result.push(decoded.unwrap_or(b'%'));
         }
 
         Cow::Owned(result)
-- 
2.43.0


From 371b669af5e85b51c9b311246fb10d37064f7c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:00 +0000
Subject: [PATCH 06/15] fix: reject out-of-range prefix lengths in URI
 templates

---
 src/template/parser/validate.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/template/parser/validate.rs b/src/template/parser/validate.rs
index 9789f1e..60dddb2 100644
--- a/src/template/parser/validate.rs
+++ b/src/template/parser/validate.rs
@@ -26,7 +26,8 @@ fn validate_varspec(s: &str, offset: usize) -> Result<(), Error> {
     match find_split2_hole(s, b':', b'*') {
         Some((maybe_varname, b':', maybe_len)) => {
             validate_varname(maybe_varname, offset)?;
-            if !(1..=5).contains(&maybe_len.len()) {
+            // `max-length` is in the range from 1 to 9999 and has no leading zeros.
+            if !(1..=4).contains(&maybe_len.len()) || maybe_len.starts_with('0') {
                 return Err(Error::new(
                     ErrorKind::InvalidExpression,
                     offset + maybe_varname.len() + 2,
-- 
2.43.0


From f322faa4471b1d422b3b0e8144b181fcd578058f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:27 +0000
Subject: [PATCH 07/15] fix: reject trailing and consecutive dots in template
 variable names

---
 src/template/parser/validate.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/template/parser/validate.rs b/src/template/parser/validate.rs
index 60dddb2..862a4de 100644
--- a/src/template/parser/validate.rs
+++ b/src/template/parser/validate.rs
@@ -62,7 +62,10 @@ pub(crate) fn validate_varname(s: &str, offset: usize) -> Result<(), Error> {
         Some(b) if b.is_ascii() && is_ascii_varchar_start(*b) => &s[1..],
         _ => return Err(Error::new(ErrorKind::InvalidExpression, offset)),
     };
-    let is_valid = satisfy_chars_with_pct_encoded(rest, is_ascii_varchar_continue, |_| false);
+    // A dot should be followed by a `varchar`.
+    let is_valid = satisfy_chars_with_pct_encoded(rest, is_ascii_varchar_continue, |_| false)
+        && !rest.contains("..")
+        && !rest.ends_with('.');
     if !is_valid {
         return Err(Error::new(ErrorKind::InvalidExpression, offset));
     }
-- 
2.43.0


From 92eabdc6bcf3b3c49b332969ab982b049c30e811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:53 +0000
Subject: [PATCH 08/15] fix: count characters, not bytes, when applying
 template prefix modifiers

---
 src/template/expand.rs | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/src/template/expand.rs b/src/template/expand.rs
index d7745e9..3bcddc8 100644
--- a/src/template/expand.rs
+++ b/src/template/expand.rs
@@ -463,13 +463,8 @@ fn escape_write_with_maxlen<S: Spec, T: fmt::Display, W: fmt::Write>(
                     writer.write_str(s)
                 }
                 PctEncodedFragments::NoPctStr(s) => {
-                    let mut chars = s.char_indices();
-                    let count = chars
-                        .by_ref()
-                        .take(max_len)
-                        .last()
-                        .map(|(i, _)| i)
-                        .expect("decomposed string fragment must not be empty");
+                    let mut chars = s.chars();
+                    let count = chars.by_ref().take(max_len).count();
                     let sub_len = s.len() - chars.as_str().len();
                     max_len -= count;
                     write!(
@@ -528,12 +523,8 @@ impl<S: Spec, W: fmt::Write> fmt::Write for TruncatePercentEncodeWriter<'_, S, W
         if self.rest_num_chars == 0 {
             return Ok(());
         }
-        let mut chars = s.char_indices();
-        let skip_count = chars
-            .by_ref()
-            .take(self.rest_num_chars)
-            .last()
-            .map_or(0, |(i, _)| i + 1);
+        let mut chars = s.chars();
+        let skip_count = chars.by_ref().take(self.rest_num_chars).count();
         let len = s.len() - chars.as_str().len();
         let truncated = &s[..len];
         write!(
-- 
2.43.0


From e40c529b15a04dd3e3f262366f9ba269f4e594d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:33 +0000
Subject: [PATCH 09/15] fix: do not percent-encode template variable names
 twice

---
 src/template/expand.rs | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/template/expand.rs b/src/template/expand.rs
index 3bcddc8..9b75ccf 100644
--- a/src/template/expand.rs
+++ b/src/template/expand.rs
@@ -783,11 +783,9 @@ impl<S: Spec, W: fmt::Write> ListValueVisitor<'_, S, W> {
                 (false, true) => self.visitor.writer.write_str(self.oppr.sep)?,
                 (true, true) => {
                     self.visitor.writer.write_str(self.oppr.sep)?;
-                    escape_write::<S, _, _>(
-                        self.visitor.writer,
-                        self.visitor.varspec.name().as_str(),
-                        self.oppr.allow_reserved,
-                    )?;
+                    self.visitor
+                        .writer
+                        .write_str(self.visitor.varspec.name().as_str())?;
                     self.visitor.writer.write_char('=')?;
                 }
             }
@@ -870,11 +868,9 @@ impl<S: Spec, W: fmt::Write> AssocValueVisitor<'_, S, W> {
                 self.visitor.writer.write_char('=')?;
             } else {
                 if self.oppr.named {
-                    escape_write::<S, _, _>(
-                        self.visitor.writer,
-                        self.visitor.varspec.name().as_str(),
-                        self.oppr.allow_reserved,
-                    )?;
+                    self.visitor
+                        .writer
+                        .write_str(self.visitor.varspec.name().as_str())?;
                     self.visitor.writer.write_char('=')?;
                 }
                 escape_write::<S, _, _>(self.visitor.writer, key, self.oppr.allow_reserved)?;
-- 
2.43.0


From 30149ded5a150d51d5a7f3d4345ec45d71f657f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:32 +0000
Subject: [PATCH 10/15] fix: use the operator's empty form for empty exploded
 template values

---
 src/template/expand.rs | 36 ++++++++++++++++++++++++++++++------
 1 file changed, 30 insertions(+), 6 deletions(-)

diff --git a/src/template/expand.rs b/src/template/expand.rs
index 9b75ccf..44384fa 100644
--- a/src/template/expand.rs
+++ b/src/template/expand.rs
@@ -444,6 +444,20 @@ fn escape_write<S: Spec, T: fmt::Display, W: fmt::Write>(
     }
 }
 
+/// Escapes the given value and writes it after `=`, or writes `ifemp` if the value is empty.
+fn escape_write_named<S: Spec, T: fmt::Display, W: fmt::Write>(
+    f: &mut W,
+    v: T,
+    oppr: &OpProps,
+) -> fmt::Result {
+    let mut writer = PrefixOnceWriter::with_prefix(f, "=");
+    escape_write::<S, T, _>(&mut writer, v, oppr.allow_reserved)?;
+    if writer.has_unwritten_prefix() {
+        f.write_str(oppr.ifemp)?;
+    }
+    Ok(())
+}
+
 /// Truncates the given value as a string, escapes the value, and writes it.
 fn escape_write_with_maxlen<S: Spec, T: fmt::Display, W: fmt::Write>(
     writer: &mut PrefixOnceWriter<'_, W>,
@@ -774,7 +788,9 @@ impl<S: Spec, W: fmt::Write> ListValueVisitor<'_, S, W> {
                 self.visitor
                     .writer
                     .write_str(self.visitor.varspec.name().as_str())?;
-                self.visitor.writer.write_char('=')?;
+                if !is_explode {
+                    self.visitor.writer.write_char('=')?;
+                }
             }
         } else {
             // Write prefix for the non-first item.
@@ -786,12 +802,15 @@ impl<S: Spec, W: fmt::Write> ListValueVisitor<'_, S, W> {
                     self.visitor
                         .writer
                         .write_str(self.visitor.varspec.name().as_str())?;
-                    self.visitor.writer.write_char('=')?;
                 }
             }
         }
 
-        escape_write::<S, _, _>(self.visitor.writer, item, self.oppr.allow_reserved)?;
+        if self.oppr.named && is_explode {
+            escape_write_named::<S, _, _>(self.visitor.writer, item, self.oppr)?;
+        } else {
+            escape_write::<S, _, _>(self.visitor.writer, item, self.oppr.allow_reserved)?;
+        }
 
         self.num_elems += 1;
         Ok(())
@@ -865,7 +884,9 @@ impl<S: Spec, W: fmt::Write> AssocValueVisitor<'_, S, W> {
             }
             if is_explode {
                 escape_write::<S, _, _>(self.visitor.writer, key, self.oppr.allow_reserved)?;
-                self.visitor.writer.write_char('=')?;
+                if !self.oppr.named {
+                    self.visitor.writer.write_char('=')?;
+                }
             } else {
                 if self.oppr.named {
                     self.visitor
@@ -892,12 +913,15 @@ impl<S: Spec, W: fmt::Write> AssocValueVisitor<'_, S, W> {
                 (true, true) => {
                     self.visitor.writer.write_str(self.oppr.sep)?;
                     escape_write::<S, _, _>(self.visitor.writer, key, self.oppr.allow_reserved)?;
-                    self.visitor.writer.write_char('=')?;
                 }
             }
         }
 
-        escape_write::<S, _, _>(self.visitor.writer, value, self.oppr.allow_reserved)?;
+        if self.oppr.named && is_explode {
+            escape_write_named::<S, _, _>(self.visitor.writer, value, self.oppr)?;
+        } else {
+            escape_write::<S, _, _>(self.visitor.writer, value, self.oppr.allow_reserved)?;
+        }
 
         self.num_elems += 1;
         Ok(())
-- 
2.43.0


From 3f87c6ed72a5b36b380b59975a686b3e44b92d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:26 +0000
Subject: [PATCH 11/15] fix: handle non-ASCII and split input after an
 incomplete percent-encoded triplet

---
 src/parser/str/maybe_pct_encoded.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/parser/str/maybe_pct_encoded.rs b/src/parser/str/maybe_pct_encoded.rs
index 7d37264..971d87c 100644
--- a/src/parser/str/maybe_pct_encoded.rs
+++ b/src/parser/str/maybe_pct_encoded.rs
@@ -144,10 +144,11 @@ where
             let (len_consumed, result) = self.decoder.push_encoded(self.buf, rest);
             if len_consumed == 0 {
                 // `rest` does not start with the percent-encoded triplets.
-                // Flush the decoder before attempting to decode more data.
-                if let Some(len_written) = self.decoder.flush(self.buf).map(NonZeroU8::get) {
+                if let PushResult::Undecodable(len_written @ 1..) = result {
+                    // The incomplete triplets in the decoder turned out to be
+                    // undecodable. Emit them before attempting to decode more data.
                     self.output_as_undecodable(len_written)?;
-                    rest = &rest[usize::from(len_written)..];
+                    continue;
                 }
 
                 // Write plain string prefix (if found).
@@ -275,8 +276,8 @@ impl DecoderBuffer {
                 // Expect `%`.
                 if c != '%' {
                     // Undecodable.
-                    // `-1`: the last byte is peeked but not consumed.
-                    let len_consumed = s.len() - chars.as_str().len() - 1;
+                    // The last character is peeked but not consumed.
+                    let len_consumed = s.len() - chars.as_str().len() - c.len_utf8();
                     let len_result = self.len_encoded;
                     self.write_and_pop(buf, len_result);
                     return (len_consumed, PushResult::Undecodable(len_result));
@@ -289,8 +290,8 @@ impl DecoderBuffer {
             // Expect a nibble.
             if !c.is_ascii_hexdigit() {
                 // Undecodable.
-                // `-1`: the last byte is peeked but not consumed.
-                let len_consumed = s.len() - chars.as_str().len() - 1;
+                // The last character is peeked but not consumed.
+                let len_consumed = s.len() - chars.as_str().len() - c.len_utf8();
                 let len_result = self.len_encoded;
                 self.write_and_pop(buf, len_result);
                 return (len_consumed, PushResult::Undecodable(len_result));
-- 
2.43.0


From 6aa3f18147f32df884333cf4fd33bb82685fb250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:00 +0000
Subject: [PATCH 12/15] fix: decode the triplet following undecodable triplets
 separately

---
 src/parser/str/maybe_pct_encoded.rs | 110 +++++++++++++++-------------
 1 file changed, 61 insertions(+), 49 deletions(-)

diff --git a/src/parser/str/maybe_pct_encoded.rs b/src/parser/str/maybe_pct_encoded.rs
index 971d87c..e2890be 100644
--- a/src/parser/str/maybe_pct_encoded.rs
+++ b/src/parser/str/maybe_pct_encoded.rs
@@ -100,6 +100,24 @@ where
         Ok(())
     }
 
+    /// Calls the output functions with the decoding result.
+    fn output_push_result(&mut self, result: PushResult) -> fmt::Result {
+        match result {
+            PushResult::Decoded(len_written, c) => {
+                let len_written = usize::from(len_written.get());
+                let frag = core::str::from_utf8(&self.buf[..len_written])
+                    .expect("`DecoderBuffer` writes a valid ASCII string");
+                self.result = (self.f)(PctEncodedFragments::Char(frag, c));
+                self.result_continue_or_err()
+            }
+            PushResult::Undecodable(len_written) => self.output_as_undecodable(len_written),
+            PushResult::NeedMoreBytes => {
+                // Nothing to write at this time.
+                Ok(())
+            }
+        }
+    }
+
     /// Calls the output functions with the undecodable fragments.
     fn output_as_undecodable(&mut self, len_undecodable: u8) -> fmt::Result {
         let len_written = usize::from(len_undecodable);
@@ -164,19 +182,12 @@ where
             }
 
             // Process decoding result.
-            match result {
-                PushResult::Decoded(len_written, c) => {
-                    let len_written = usize::from(len_written.get());
-                    let frag = core::str::from_utf8(&self.buf[..len_written])
-                        .expect("`DecoderBuffer` writes a valid ASCII string");
-                    self.result = (self.f)(PctEncodedFragments::Char(frag, c));
-                    self.result_continue_or_err()?;
-                }
-                PushResult::Undecodable(len_written) => {
-                    self.output_as_undecodable(len_written)?;
-                }
-                PushResult::NeedMoreBytes => {
-                    // Nothing to write at this time.
+            self.output_push_result(result)?;
+            if matches!(result, PushResult::Undecodable(_)) {
+                // The triplet that made the preceding triplets undecodable may
+                // be still in the decoder, and may be decodable by itself.
+                while let Some(result) = self.decoder.pop_complete(self.buf) {
+                    self.output_push_result(result)?;
                 }
             }
             rest = &rest[len_consumed..];
@@ -308,47 +319,48 @@ impl DecoderBuffer {
 
             // Now a new percent-encoded triplet is read.
             // Check if the buffer contains a valid decodable content.
-            let len_decoded = usize::from(self.len_encoded) / 3;
-            match core::str::from_utf8(&self.decoded[..len_decoded]) {
-                Ok(decoded_str) => {
-                    // Successfully decoded.
-                    let len_consumed = s.len() - chars.as_str().len();
-                    let c = decoded_str
-                        .chars()
-                        .next()
-                        .expect("`decoded` buffer is nonempty");
-                    let len_result = NonZeroU8::new(self.len_encoded).expect(
-                        "`encoded` buffer is nonempty since \
-                         `push_single_encoded_byte()` was called",
-                    );
-                    self.write_and_pop(buf, len_result.get());
-                    return (len_consumed, PushResult::Decoded(len_result, c));
-                }
-                Err(e) => {
-                    // Undecodable.
-                    assert_eq!(
-                        e.valid_up_to(),
-                        0,
-                        "`decoded` buffer contains at most one character"
-                    );
-                    let skip_len_decoded = match e.error_len() {
-                        // Unexpected EOF. Wait for remaining input.
-                        None => continue,
-                        // Skip invalid bytes.
-                        Some(v) => v,
-                    };
-                    let len_consumed = s.len() - chars.as_str().len();
-                    let len_result = skip_len_decoded as u8 * 3;
-                    assert_ne!(skip_len_decoded, 0, "empty bytes cannot be invalid");
-                    self.write_and_pop(buf, len_result);
-                    return (len_consumed, PushResult::Undecodable(len_result));
-                }
-            };
+            if let Some(result) = self.pop_complete(buf) {
+                let len_consumed = s.len() - chars.as_str().len();
+                return (len_consumed, result);
+            }
         }
         let len_consumed = s.len() - chars.as_str().len();
         (len_consumed, PushResult::NeedMoreBytes)
     }
 
+    /// Pops the leading complete triplets if they turned out to be decodable or undecodable.
+    ///
+    /// Returns `None` if the buffer is empty or more bytes are necessary.
+    #[must_use]
+    fn pop_complete(&mut self, buf: &mut [u8]) -> Option<PushResult> {
+        let len_decoded = usize::from(self.len_encoded) / 3;
+        match core::str::from_utf8(&self.decoded[..len_decoded]) {
+            Ok(decoded_str) => {
+                // Successfully decoded, unless the buffer is empty.
+                let c = decoded_str.chars().next()?;
+                let len_result = NonZeroU8::new(self.len_encoded)
+                    .expect("`encoded` buffer is nonempty since `decoded` buffer is nonempty");
+                self.write_and_pop(buf, len_result.get());
+                Some(PushResult::Decoded(len_result, c))
+            }
+            Err(e) => {
+                // Undecodable.
+                assert_eq!(
+                    e.valid_up_to(),
+                    0,
+                    "`decoded` buffer contains at most one character"
+                );
+                // `None` indicates unexpected EOF. Wait for remaining input.
+                // Otherwise, skip invalid bytes.
+                let skip_len_decoded = e.error_len()?;
+                let len_result = skip_len_decoded as u8 * 3;
+                assert_ne!(skip_len_decoded, 0, "empty bytes cannot be invalid");
+                self.write_and_pop(buf, len_result);
+                Some(PushResult::Undecodable(len_result))
+            }
+        }
+    }
+
     /// Writes the incomplete data completely to the destination, and clears the internal buffer.
     #[must_use]
     pub(crate) fn flush(&mut self, buf: &mut [u8]) -> Option<NonZeroU8> {
-- 
2.43.0


From 0052612f0715346ecfab6e7375f99a9df5ddb6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:59 +0000
Subject: [PATCH 13/15] fix: an IRI with an empty port is not normalized

---
 src/parser/trusted.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parser/trusted.rs b/src/parser/trusted.rs
index ec6da67..ba337d8 100644
--- a/src/parser/trusted.rs
+++ b/src/parser/trusted.rs
@@ -378,6 +378,11 @@ pub(crate) fn is_normalized<S: Spec>(i: &str, mode: NormalizednessCheckMode) ->
             return false;
         }
 
+        // An empty port and its `:` delimiter should be omitted.
+        if authority_components.port() == Some("") {
+            return false;
+        }
+
         // Check pencent encodings in `userinfo`.
         if let Some(userinfo) = authority_components.userinfo() {
             if !is_pct_case_normalized::<S>(userinfo) {
-- 
2.43.0


From 07822d851a3b16831ca94e924300a4f19ee8fe8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:24 +0000
Subject: [PATCH 14/15] fix: check normalizability of the base path if
 normalization is enabled

---
 src/normalize.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/normalize.rs b/src/normalize.rs
index 3e167b6..da69bd1 100644
--- a/src/normalize.rs
+++ b/src/normalize.rs
@@ -358,7 +358,10 @@ impl NormalizationInput<'_> {
             return Ok(());
         }
         match self.path {
-            Path::Done(_) => Ok(()),
+            // The path is not going to be modified.
+            Path::Done(_) if !self.op.mode.case_pct_normalization() => Ok(()),
+            Path::Done(s) => PathToNormalize::from_single_path(s)
+                .ensure_rfc3986_normalizable_with_authority_absent(),
             Path::NeedsProcessing(path) => path.ensure_rfc3986_normalizable_with_authority_absent(),
         }
     }
-- 
2.43.0


From 7e4e68df464ed8cc8511fb8bfc32b8890489244c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:24 +0000
Subject: [PATCH 15/15] fix: do not split a character when validating a
 percent-encoding in a URI template

---
 src/template/parser/validate.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/template/parser/validate.rs b/src/template/parser/validate.rs
index 862a4de..c961664 100644
--- a/src/template/parser/validate.rs
+++ b/src/template/parser/validate.rs
@@ -122,20 +122,22 @@ pub(in crate::template) fn validate_template_str(s: &str) -> Result<(), Error> {
                         offset + literal.len(),
                     ));
                 }
-                let (xdigits2, new_rest) = xdigits2_and_rest.split_at(2);
-                if !xdigits2.as_bytes()[0].is_ascii_hexdigit() {
+                // The first two bytes may not be on a character boundary until
+                // they turn out to be ASCII.
+                let xdigits2 = &xdigits2_and_rest.as_bytes()[..2];
+                if !xdigits2[0].is_ascii_hexdigit() {
                     return Err(Error::new(
                         ErrorKind::InvalidPercentEncoding,
                         offset + literal.len() + 1,
                     ));
                 }
-                if !xdigits2.as_bytes()[1].is_ascii_hexdigit() {
+                if !xdigits2[1].is_ascii_hexdigit() {
                     return Err(Error::new(
                         ErrorKind::InvalidPercentEncoding,
                         offset + literal.len() + 2,
                     ));
                 }
-                new_rest
+                &xdigits2_and_rest[2..]
             }
             Some((literal, b'{', expr_and_rest)) => {
                 validate_literal(literal, offset)?;
-- 
2.43.0

