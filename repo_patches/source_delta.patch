From 83bb1e1cd5b688e9c1e6b3a4a7df2d1d10f65b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:22 +0000
Subject: [PATCH 01/37] fix: reject out-of-range integers when deserialising
 StatusCode instead of truncating to u16

---
 src/status_code.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/status_code.rs b/src/status_code.rs
index 8814183..7e6ab3b 100644
--- a/src/status_code.rs
+++ b/src/status_code.rs
@@ -561,21 +561,25 @@ mod serde {
         where
             E: DeError,
         {
-            self.visit_u16(v as u16)
+            self.visit_i64(i64::from(v))
         }
 
         fn visit_i32<E>(self, v: i32) -> Result<Self::Value, E>
         where
             E: DeError,
         {
-            self.visit_u16(v as u16)
+            self.visit_i64(i64::from(v))
         }
 
         fn visit_i64<E>(self, v: i64) -> Result<Self::Value, E>
         where
             E: DeError,
         {
-            self.visit_u16(v as u16)
+            use std::convert::TryFrom;
+            match u16::try_from(v) {
+                Ok(v) => self.visit_u16(v),
+                Err(_) => Err(DeError::invalid_value(Unexpected::Signed(v), &self)),
+            }
         }
 
         fn visit_u16<E>(self, v: u16) -> Result<Self::Value, E>
@@ -596,14 +600,18 @@ mod serde {
         where
             E: DeError,
         {
-            self.visit_u16(v as u16)
+            self.visit_u64(u64::from(v))
         }
 
         fn visit_u64<E>(self, v: u64) -> Result<Self::Value, E>
         where
             E: DeError,
         {
-            self.visit_u16(v as u16)
+            use std::convert::TryFrom;
+            match u16::try_from(v) {
+                Ok(v) => self.visit_u16(v),
+                Err(_) => Err(DeError::invalid_value(Unexpected::Unsigned(v), &self)),
+            }
         }
     }
 
-- 
2.43.0


From a80009f3e97aec50ee009b3123f273529b93d165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:43 +0000
Subject: [PATCH 02/37] fix: look X-Powered-By up under its lower-case name so
 that it is really removed

---
 src/security/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/security/mod.rs b/src/security/mod.rs
index 2cb9b6a..a541440 100644
--- a/src/security/mod.rs
+++ b/src/security/mod.rs
@@ -118,7 +118,7 @@ pub fn frameguard(mut headers: impl AsMut<Headers>, guard: Option<FrameOptions>)
 // /// ```
 #[inline]
 pub fn powered_by(mut headers: impl AsMut<Headers>, value: Option<HeaderValue>) {
-    let name = HeaderName::from_lowercase_str("X-Powered-By");
+    let name = HeaderName::from_lowercase_str("x-powered-by");
     match value {
         Some(value) => {
             // Can never fail as value is already a HeaderValue, could use unsafe version of insert
-- 
2.43.0


From d2942c66bd132e058fd95541865ac2c4ca0209ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:52 +0000
Subject: [PATCH 03/37] fix: Values::size_hint counted header names instead of
 values

---
 src/headers/values.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/headers/values.rs b/src/headers/values.rs
index 810c051..db58265 100644
--- a/src/headers/values.rs
+++ b/src/headers/values.rs
@@ -64,9 +64,13 @@ impl<'a> Iterator for Values<'a> {
 
     #[inline]
     fn size_hint(&self) -> (usize, Option<usize>) {
+        // One name can hold any number of values, so only the current slot can be counted.
+        let current = self
+            .slot
+            .map_or(0, |s| s.inner.len().saturating_sub(self.cursor));
         match self.inner.as_ref() {
-            Some(inner) => inner.size_hint(),
-            None => (0, None),
+            Some(inner) if inner.len() > 0 => (current, None),
+            _ => (current, Some(current)),
         }
     }
 }
-- 
2.43.0


From e1711030852e8b2b768de339fef5caff78e45c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:23 +0000
Subject: [PATCH 04/37] fix: honour and account for a Body's declared length
 when it is read through AsyncBufRead

---
 src/body.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/body.rs b/src/body.rs
index ac1acfc..156c16f 100644
--- a/src/body.rs
+++ b/src/body.rs
@@ -604,10 +604,23 @@ impl AsyncRead for Body {
 impl AsyncBufRead for Body {
     #[allow(rustdoc::missing_doc_code_examples)]
     fn poll_fill_buf(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<&'_ [u8]>> {
-        self.project().reader.poll_fill_buf(cx)
+        let this = self.project();
+        let remaining = match *this.length {
+            None => u64::MAX,
+            Some(length) => length - *this.bytes_read,
+        };
+        if remaining == 0 {
+            return Poll::Ready(Ok(&[]));
+        }
+
+        let buf = ready!(this.reader.poll_fill_buf(cx))?;
+        // See `poll_read`: the minimum never exceeds `buf.len()`.
+        let max_len = remaining.min(buf.len() as u64) as usize;
+        Poll::Ready(Ok(&buf[0..max_len]))
     }
 
     fn consume(mut self: Pin<&mut Self>, amt: usize) {
+        self.bytes_read += amt as u64;
         Pin::new(&mut self.reader).consume(amt)
     }
 }
-- 
2.43.0


From 68dc8863708ef5bd8e79f18ba1c79e82ab6fccba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:39 +0000
Subject: [PATCH 05/37] fix: Body::into_string allocated whatever length was
 declared, aborting on a large one

---
 src/body.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/body.rs b/src/body.rs
index 156c16f..b683a96 100644
--- a/src/body.rs
+++ b/src/body.rs
@@ -226,7 +226,8 @@ impl Body {
     /// ```
     pub async fn into_string(mut self) -> crate::Result<String> {
         let len = usize::try_from(self.len().unwrap_or(0)).status(StatusCode::PayloadTooLarge)?;
-        let mut result = String::with_capacity(len);
+        // The declared length may be wrong, so don't let it decide how much to allocate up front.
+        let mut result = String::with_capacity(len.min(64 * 1024));
         self.read_to_string(&mut result)
             .await
             .status(StatusCode::UnprocessableEntity)?;
-- 
2.43.0


From 465a840d3d88408d13f6b5f26c3f972235cb50d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:25 +0000
Subject: [PATCH 06/37] fix: HTTP dates with signed numbers were accepted

---
 src/utils/date.rs | 37 ++++++++++++++++++++++---------------
 1 file changed, 22 insertions(+), 15 deletions(-)

diff --git a/src/utils/date.rs b/src/utils/date.rs
index 7f9f382..cd82cd6 100644
--- a/src/utils/date.rs
+++ b/src/utils/date.rs
@@ -1,4 +1,5 @@
 use std::fmt::{self, Display, Formatter};
+use std::num::ParseIntError;
 use std::str::{from_utf8, FromStr};
 use std::time::{Duration, SystemTime, UNIX_EPOCH};
 
@@ -69,6 +70,12 @@ impl HttpDate {
     }
 }
 
+/// Parse a number consisting of nothing but digits.
+fn parse_number<T: FromStr<Err = ParseIntError>>(s: &[u8]) -> crate::Result<T> {
+    ensure!(s.iter().all(u8::is_ascii_digit), "Invalid number");
+    Ok(from_utf8(s)?.parse()?)
+}
+
 fn parse_imf_fixdate(s: &[u8]) -> crate::Result<HttpDate> {
     // Example: `Sun, 06 Nov 1994 08:49:37 GMT`
     if s.len() != IMF_FIXDATE_LENGTH
@@ -80,10 +87,10 @@ fn parse_imf_fixdate(s: &[u8]) -> crate::Result<HttpDate> {
         bail!("Date time not in imf fixdate format");
     }
     Ok(HttpDate {
-        second: from_utf8(&s[23..25])?.parse()?,
-        minute: from_utf8(&s[20..22])?.parse()?,
-        hour: from_utf8(&s[17..19])?.parse()?,
-        day: from_utf8(&s[5..7])?.parse()?,
+        second: parse_number(&s[23..25])?,
+        minute: parse_number(&s[20..22])?,
+        hour: parse_number(&s[17..19])?,
+        day: parse_number(&s[5..7])?,
         month: match &s[7..12] {
             b" Jan " => 1,
             b" Feb " => 2,
@@ -99,7 +106,7 @@ fn parse_imf_fixdate(s: &[u8]) -> crate::Result<HttpDate> {
             b" Dec " => 12,
             _ => bail!("Invalid Month"),
         },
-        year: from_utf8(&s[12..16])?.parse()?,
+        year: parse_number(&s[12..16])?,
         week_day: match &s[..5] {
             b"Mon, " => 1,
             b"Tue, " => 2,
@@ -137,17 +144,17 @@ fn parse_rfc850_date(s: &[u8]) -> crate::Result<HttpDate> {
     if s.len() != 22 || s[12] != b':' || s[15] != b':' || &s[18..22] != b" GMT" {
         bail!("Date time not in rfc950 fmt");
     }
-    let mut year = from_utf8(&s[7..9])?.parse::<u16>()?;
+    let mut year = parse_number::<u16>(&s[7..9])?;
     if year < 70 {
         year += 2000;
     } else {
         year += 1900;
     }
     Ok(HttpDate {
-        second: from_utf8(&s[16..18])?.parse()?,
-        minute: from_utf8(&s[13..15])?.parse()?,
-        hour: from_utf8(&s[10..12])?.parse()?,
-        day: from_utf8(&s[0..2])?.parse()?,
+        second: parse_number(&s[16..18])?,
+        minute: parse_number(&s[13..15])?,
+        hour: parse_number(&s[10..12])?,
+        day: parse_number(&s[0..2])?,
         month: match &s[2..7] {
             b"-Jan-" => 1,
             b"-Feb-" => 2,
@@ -175,12 +182,12 @@ fn parse_asctime(s: &[u8]) -> crate::Result<HttpDate> {
         bail!("Date time not in asctime format");
     }
     Ok(HttpDate {
-        second: from_utf8(&s[17..19])?.parse()?,
-        minute: from_utf8(&s[14..16])?.parse()?,
-        hour: from_utf8(&s[11..13])?.parse()?,
+        second: parse_number(&s[17..19])?,
+        minute: parse_number(&s[14..16])?,
+        hour: parse_number(&s[11..13])?,
         day: {
             let x = &s[8..10];
-            from_utf8(if x[0] == b' ' { &x[1..2] } else { x })?.parse()?
+            parse_number(if x[0] == b' ' { &x[1..2] } else { x })?
         },
         month: match &s[4..8] {
             b"Jan " => 1,
@@ -197,7 +204,7 @@ fn parse_asctime(s: &[u8]) -> crate::Result<HttpDate> {
             b"Dec " => 12,
             _ => bail!("Invalid month"),
         },
-        year: from_utf8(&s[20..24])?.parse()?,
+        year: parse_number(&s[20..24])?,
         week_day: match &s[0..4] {
             b"Mon " => 1,
             b"Tue " => 2,
-- 
2.43.0


From 596f5991a950a7265b0cbf974305ae98369f17e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:26 +0000
Subject: [PATCH 07/37] fix: HTTP dates with a day past the end of the month
 were accepted

---
 src/utils/date.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/utils/date.rs b/src/utils/date.rs
index cd82cd6..5b81493 100644
--- a/src/utils/date.rs
+++ b/src/utils/date.rs
@@ -59,10 +59,10 @@ impl HttpDate {
         self.second < 60
             && self.minute < 60
             && self.hour < 24
-            && self.day > 0
-            && self.day < 32
             && self.month > 0
             && self.month <= 12
+            && self.day > 0
+            && self.day <= days_in_month(self.year, self.month)
             && self.year >= 1970
             && self.year <= 9999
             && self.week_day >= 1
@@ -416,6 +416,15 @@ impl PartialOrd for HttpDate {
     }
 }
 
+fn days_in_month(year: u16, month: u8) -> u8 {
+    match month {
+        4 | 6 | 9 | 11 => 30,
+        2 if is_leap_year(year) => 29,
+        2 => 28,
+        _ => 31,
+    }
+}
+
 fn is_leap_year(year: u16) -> bool {
     year % 4 == 0 && (year % 100 != 0 || year % 400 == 0)
 }
-- 
2.43.0


From 9549bcd9ade3214d9f01d47a807b67527c385626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:13 +0000
Subject: [PATCH 08/37] fix: RFC 850 dates without a space before the time were
 accepted

---
 src/utils/date.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/date.rs b/src/utils/date.rs
index 5b81493..ea4e2eb 100644
--- a/src/utils/date.rs
+++ b/src/utils/date.rs
@@ -141,7 +141,7 @@ fn parse_rfc850_date(s: &[u8]) -> crate::Result<HttpDate> {
         .or_else(|| week_day(s, 6, b"Saturday, "))
         .or_else(|| week_day(s, 7, b"Sunday, "))
         .ok_or_else(|| format_err!("Invalid day"))?;
-    if s.len() != 22 || s[12] != b':' || s[15] != b':' || &s[18..22] != b" GMT" {
+    if s.len() != 22 || s[9] != b' ' || s[12] != b':' || s[15] != b':' || &s[18..22] != b" GMT" {
         bail!("Date time not in rfc950 fmt");
     }
     let mut year = parse_number::<u16>(&s[7..9])?;
-- 
2.43.0


From 41fb3d5b3f2332e2ad7ecb9b591b86b324e17f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:24 +0000
Subject: [PATCH 09/37] fix: a huge Retry-After delay panicked when used as an
 instant

---
 src/other/retry_after.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/other/retry_after.rs b/src/other/retry_after.rs
index 2140459..ecd98e2 100644
--- a/src/other/retry_after.rs
+++ b/src/other/retry_after.rs
@@ -65,7 +65,13 @@ impl RetryAfter {
         };
 
         let inner = match header.as_str().parse::<u64>() {
-            Ok(dur) => RetryDirective::Duration(Duration::from_secs(dur)),
+            Ok(secs) => {
+                let dur = Duration::from_secs(secs);
+                // The instant after this delay must exist.
+                let at = SystemTime::now().checked_add(dur);
+                crate::ensure_status!(at.is_some(), 400, "Retry-After delay is too long");
+                RetryDirective::Duration(dur)
+            }
             Err(_) => {
                 let at = parse_http_date(header.as_str())?;
                 RetryDirective::SystemTime(at)
-- 
2.43.0


From bc4a0bc1ff26692546c30ece222452561a9e482b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:24 +0000
Subject: [PATCH 10/37] fix: Age lost precision, and panicked, on large values

---
 src/cache/age.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cache/age.rs b/src/cache/age.rs
index 0ee78a0..1da4833 100644
--- a/src/cache/age.rs
+++ b/src/cache/age.rs
@@ -63,7 +63,7 @@ impl Age {
         let header = headers.iter().last().unwrap();
 
         let num: u64 = header.as_str().parse::<u64>().status(400)?;
-        let dur = Duration::from_secs_f64(num as f64);
+        let dur = Duration::from_secs(num);
 
         Ok(Some(Self { dur }))
     }
-- 
2.43.0


From 69509d1ab8f11b5d56000076af6150e5ff6ee935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:20 +0000
Subject: [PATCH 11/37] fix: quoted strings with '!' were refused, and
 non-latin characters were taken for others

---
 src/parse_utils.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/parse_utils.rs b/src/parse_utils.rs
index a2dc235..ac0b869 100644
--- a/src/parse_utils.rs
+++ b/src/parse_utils.rs
@@ -44,7 +44,7 @@ fn tchar(c: char) -> bool {
 
 /// https://tools.ietf.org/html/rfc7230#section-3.2.6
 fn vchar(c: char) -> bool {
-    matches!(c as u8, b'\t' | 32..=126 | 128..=255)
+    matches!(c, '\t' | ' '..='~' | '\u{80}'..=char::MAX)
 }
 
 /// https://tools.ietf.org/html/rfc7230#section-3.2.6
@@ -65,20 +65,20 @@ pub(crate) fn parse_quoted_string(input: &str) -> (Option<Cow<'_, str>>, &str) {
             }
         // otherwise, we skip over this character while parsing
         } else {
-            match c as u8 {
+            match c {
                 // we have reached a quoted-pair
-                b'\\' => {
+                '\\' => {
                     backslashes.push(i - 1);
                 }
 
                 // end of the string, DQUOTE
-                b'"' => {
+                '"' => {
                     end_of_string = Some(i + 1);
                     break;
                 }
 
                 // qdtext
-                b'\t' | b' ' | 15 | 35..=91 | 93..=126 | 128..=255 => {}
+                '\t' | ' ' | '!' | '#'..='[' | ']'..='~' | '\u{80}'..=char::MAX => {}
 
                 // unexpected character, bail
                 _ => return (None, input),
-- 
2.43.0


From 098f0364fb36f6e58335f6767d17f2d025f326a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:20 +0000
Subject: [PATCH 12/37] fix: parsing a Forwarded value could panic (for=a, with
 nothing after the comma; non-ASCII text)

---
 src/proxies/forwarded.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/proxies/forwarded.rs b/src/proxies/forwarded.rs
index 30e491b..2bbfc11 100644
--- a/src/proxies/forwarded.rs
+++ b/src/proxies/forwarded.rs
@@ -420,20 +420,17 @@ fn format_value(input: &str) -> Cow<'_, str> {
 }
 
 fn match_ignore_case<'a>(start: &'static str, input: &'a str) -> (bool, &'a str) {
-    let len = start.len();
-    if input[..len].eq_ignore_ascii_case(start) {
-        (true, &input[len..])
+    if starts_with_ignore_case(start, input) {
+        (true, &input[start.len()..])
     } else {
         (false, input)
     }
 }
 
 fn starts_with_ignore_case(start: &'static str, input: &str) -> bool {
-    if start.len() <= input.len() {
-        let len = start.len();
-        input[..len].eq_ignore_ascii_case(start)
-    } else {
-        false
+    match input.get(..start.len()) {
+        Some(prefix) => prefix.eq_ignore_ascii_case(start),
+        None => false,
     }
 }
 
-- 
2.43.0


From a18a02f7ec79780182fb8a4ac00cee5dbc366f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:20 +0000
Subject: [PATCH 13/37] fix: Forwarded wrote values that its parser refuses
 (empty or non-token values, no for=)

---
 src/proxies/forwarded.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/proxies/forwarded.rs b/src/proxies/forwarded.rs
index 2bbfc11..7efea8c 100644
--- a/src/proxies/forwarded.rs
+++ b/src/proxies/forwarded.rs
@@ -365,7 +365,7 @@ impl<'a> Header for Forwarded<'a> {
     fn header_value(&self) -> HeaderValue {
         let mut output = String::new();
         if let Some(by) = self.by() {
-            write!(&mut output, "by={};", by).unwrap();
+            write!(&mut output, "by={};", format_value(by)).unwrap();
         }
 
         output.push_str(
@@ -377,14 +377,16 @@ impl<'a> Header for Forwarded<'a> {
                 .join(", "),
         );
 
-        output.push(';');
+        if !self.forwarded_for.is_empty() {
+            output.push(';');
+        }
 
         if let Some(host) = self.host() {
-            write!(&mut output, "host={};", host).unwrap();
+            write!(&mut output, "host={};", format_value(host)).unwrap();
         }
 
         if let Some(proto) = self.proto() {
-            write!(&mut output, "proto={};", proto).unwrap();
+            write!(&mut output, "proto={};", format_value(proto)).unwrap();
         }
 
         // remove a trailing semicolon
@@ -404,7 +406,7 @@ fn parse_value(input: &str) -> (Option<Cow<'_, str>>, &str) {
 
 fn format_value(input: &str) -> Cow<'_, str> {
     match parse_token(input) {
-        (_, "") => input.into(),
+        (Some(_), "") => input.into(),
         _ => {
             let mut string = String::from("\"");
             for ch in input.chars() {
-- 
2.43.0


From 5f783ea07dd53a664c8df41e8acf81f74326f35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:16 +0000
Subject: [PATCH 14/37] fix: a second charset parameter could replace the first
 of a media type

---
 src/mime/parse.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/mime/parse.rs b/src/mime/parse.rs
index f2ec569..ff3f1e2 100644
--- a/src/mime/parse.rs
+++ b/src/mime/parse.rs
@@ -41,7 +41,7 @@ pub(crate) fn parse(input: &str) -> crate::Result<Mime> {
     // 10.
     let basetype = basetype.to_ascii_lowercase();
     let subtype = subtype.to_ascii_lowercase();
-    let mut params = vec![];
+    let mut params: Vec<(ParamName, ParamValue)> = vec![];
     let mut is_utf8 = false;
 
     // 11.
@@ -93,7 +93,10 @@ pub(crate) fn parse(input: &str) -> crate::Result<Mime> {
         };
 
         // 10.
-        if parameter_name == "charset" && parameter_value == "utf-8" {
+        let has_charset = is_utf8 || params.iter().any(|(k, _)| k.as_str() == "charset");
+        if parameter_name == "charset" && has_charset {
+            // only the first one counts
+        } else if parameter_name == "charset" && parameter_value == "utf-8" {
             is_utf8 = true;
         } else if !parameter_name.is_empty()
             && parameter_name.chars().all(is_http_token_code_point)
-- 
2.43.0


From 1baf942c75dfacd51e680903dd46e09b7f1e7096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:16 +0000
Subject: [PATCH 15/37] fix: a media type without charset=utf-8 was a subset of
 one that requires it

---
 src/mime/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mime/mod.rs b/src/mime/mod.rs
index f416de3..e2c5a03 100644
--- a/src/mime/mod.rs
+++ b/src/mime/mod.rs
@@ -153,6 +153,9 @@ impl Mime {
         if other.subtype() != "*" && self.subtype() != other.subtype() {
             return false;
         }
+        if other.is_utf8 && !matches!(self.param("charset"), Some(v) if v == "utf-8") {
+            return false;
+        }
         for (name, value) in other.params.iter() {
             if !self
                 .param(name.clone())
-- 
2.43.0


From 0d6a6ffdaf47fea843ef43a39040df84896b1fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:23 +0000
Subject: [PATCH 16/37] fix: text inside an unterminated quoted media type
 parameter was parsed again as parameters

---
 src/mime/parse.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mime/parse.rs b/src/mime/parse.rs
index ff3f1e2..ff78d39 100644
--- a/src/mime/parse.rs
+++ b/src/mime/parse.rs
@@ -201,6 +201,7 @@ fn collect_http_quoted_string(mut input: &str) -> (String, &str) {
             }
         } else {
             // 2
+            input = new_input;
             break;
         }
     }
-- 
2.43.0


From 0740da2d966fec996348db596609c820e1429d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:33 +0000
Subject: [PATCH 17/37] fix: a weight after '; ' or written Q= was refused, and
 text after a second '=' was ignored

---
 src/utils/mod.rs | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/utils/mod.rs b/src/utils/mod.rs
index 9c9ea92..5cca099 100644
--- a/src/utils/mod.rs
+++ b/src/utils/mod.rs
@@ -11,13 +11,8 @@ use std::str::FromStr;
 
 /// Parse a weight of the form `q=0.123`.
 pub(crate) fn parse_weight(s: &str) -> crate::Result<f32> {
-    let mut parts = s.split('=');
-    if !matches!(parts.next(), Some("q")) {
-        let mut err = Error::new_adhoc("invalid weight");
-        err.set_status(StatusCode::BadRequest);
-        return Err(err);
-    }
-    match parts.next() {
+    let s = s.trim();
+    match s.strip_prefix("q=").or_else(|| s.strip_prefix("Q=")) {
         Some(s) => {
             let weight = f32::from_str(s).status(400)?;
             Ok(weight)
-- 
2.43.0


From b854f5b6c368d8908ec0ab4feb18b856a61a31b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:33 +0000
Subject: [PATCH 18/37] fix: malformed entries of Accept, Accept-Encoding and
 TE were reported as server errors

---
 src/content/encoding_proposal.rs   |  3 ++-
 src/content/media_type_proposal.rs | 10 ++++++----
 src/transfer/encoding_proposal.rs  |  3 ++-
 3 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/content/encoding_proposal.rs b/src/content/encoding_proposal.rs
index 7d32944..65c24dd 100644
--- a/src/content/encoding_proposal.rs
+++ b/src/content/encoding_proposal.rs
@@ -2,6 +2,7 @@ use crate::content::Encoding;
 use crate::ensure;
 use crate::headers::HeaderValue;
 use crate::utils::parse_weight;
+use crate::Status;
 
 use std::cmp::{Ordering, PartialEq};
 use std::ops::{Deref, DerefMut};
@@ -52,7 +53,7 @@ impl EncodingProposal {
         };
         let weight = parts.next().map(parse_weight).transpose()?;
 
-        Ok(Some(Self::new(encoding, weight)?))
+        Ok(Some(Self::new(encoding, weight).status(400)?))
     }
 }
 
diff --git a/src/content/media_type_proposal.rs b/src/content/media_type_proposal.rs
index 622558d..2be48bf 100644
--- a/src/content/media_type_proposal.rs
+++ b/src/content/media_type_proposal.rs
@@ -1,6 +1,7 @@
 use crate::ensure;
 use crate::headers::HeaderValue;
 use crate::mime::Mime;
+use crate::Status;
 
 use std::ops::{Deref, DerefMut};
 use std::{
@@ -58,12 +59,13 @@ impl MediaTypeProposal {
     /// we have to parse the full string to the media type first, and then see if
     /// a `q` value has been set.
     pub(crate) fn from_str(s: &str) -> crate::Result<Self> {
-        let mut media_type = Mime::from_str(s)?;
+        let mut media_type = Mime::from_str(s).status(400)?;
         let weight = media_type
             .remove_param("q")
-            .map(|param| param.as_str().parse())
-            .transpose()?;
-        Self::new(media_type, weight)
+            .map(|param| param.as_str().parse::<f32>())
+            .transpose()
+            .status(400)?;
+        Self::new(media_type, weight).status(400)
     }
 }
 
diff --git a/src/transfer/encoding_proposal.rs b/src/transfer/encoding_proposal.rs
index 72f083d..7e6e032 100644
--- a/src/transfer/encoding_proposal.rs
+++ b/src/transfer/encoding_proposal.rs
@@ -2,6 +2,7 @@ use crate::ensure;
 use crate::headers::HeaderValue;
 use crate::transfer::Encoding;
 use crate::utils::parse_weight;
+use crate::Status;
 
 use std::cmp::{Ordering, PartialEq};
 use std::ops::{Deref, DerefMut};
@@ -54,7 +55,7 @@ impl EncodingProposal {
         };
         let weight = parts.next().map(parse_weight).transpose()?;
 
-        Ok(Some(Self::new(encoding, weight)?))
+        Ok(Some(Self::new(encoding, weight).status(400)?))
     }
 }
 
-- 
2.43.0


From 84dd990e17fb86a1211d13c80d2aaa34109506a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:59 +0000
Subject: [PATCH 19/37] fix: negotiation chose options whose weight of zero
 says they are not acceptable

---
 src/content/accept.rs          | 11 ++++++++++-
 src/content/accept_encoding.rs | 10 ++++++++--
 src/transfer/te.rs             | 10 ++++++++--
 3 files changed, 26 insertions(+), 5 deletions(-)

diff --git a/src/content/accept.rs b/src/content/accept.rs
index 87dad90..3ddb96a 100644
--- a/src/content/accept.rs
+++ b/src/content/accept.rs
@@ -129,6 +129,10 @@ impl Accept {
 
         // Try and find the first encoding that matches.
         for accept in &self.entries {
+            // A weight of zero means "not acceptable".
+            if accept.weight() == Some(0.0) {
+                continue;
+            }
             if let Some(accept) = available.iter().find(|m| m.subset_eq(accept.media_type())) {
                 return Ok(accept.clone().into());
             }
@@ -136,7 +140,12 @@ impl Accept {
 
         // If no encoding matches and wildcard is set, send whichever encoding we got.
         if self.wildcard {
-            if let Some(accept) = available.iter().next() {
+            let refused = |m: &Mime| {
+                self.entries
+                    .iter()
+                    .any(|p| p.weight() == Some(0.0) && m.subset_eq(p.media_type()))
+            };
+            if let Some(accept) = available.iter().find(|m| !refused(m)) {
                 return Ok(accept.clone().into());
             }
         }
diff --git a/src/content/accept_encoding.rs b/src/content/accept_encoding.rs
index 5c469a4..1e0ecf8 100644
--- a/src/content/accept_encoding.rs
+++ b/src/content/accept_encoding.rs
@@ -121,14 +121,20 @@ impl AcceptEncoding {
 
         // Try and find the first encoding that matches.
         for encoding in &self.entries {
-            if available.contains(encoding) {
+            if available.contains(encoding) && encoding.weight() != Some(0.0) {
                 return Ok(encoding.into());
             }
         }
 
         // If no encoding matches and wildcard is set, send whichever encoding we got.
         if self.wildcard {
-            if let Some(encoding) = available.iter().next() {
+            // A weight of zero means "not acceptable".
+            if let Some(encoding) = available.iter().find(|e| {
+                !self
+                    .entries
+                    .iter()
+                    .any(|p| p.encoding == **e && p.weight() == Some(0.0))
+            }) {
                 return Ok(encoding.into());
             }
         }
diff --git a/src/transfer/te.rs b/src/transfer/te.rs
index acd1af8..b65bf1e 100644
--- a/src/transfer/te.rs
+++ b/src/transfer/te.rs
@@ -119,14 +119,20 @@ impl TE {
 
         // Try and find the first encoding that matches.
         for encoding in &self.entries {
-            if available.contains(encoding) {
+            if available.contains(encoding) && encoding.weight() != Some(0.0) {
                 return Ok(encoding.into());
             }
         }
 
         // If no encoding matches and wildcard is set, send whichever encoding we got.
         if self.wildcard {
-            if let Some(encoding) = available.iter().next() {
+            // A weight of zero means "not acceptable".
+            if let Some(encoding) = available.iter().find(|e| {
+                !self
+                    .entries
+                    .iter()
+                    .any(|p| p.encoding == **e && p.weight() == Some(0.0))
+            }) {
                 return Ok(encoding.into());
             }
         }
-- 
2.43.0


From dff881e169a278fb5687999335fef3ea5b7f2d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:59 +0000
Subject: [PATCH 20/37] fix: an unknown Content-Encoding or Transfer-Encoding
 panicked instead of being refused

---
 src/content/content_encoding.rs   | 3 ++-
 src/transfer/transfer_encoding.rs | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/content/content_encoding.rs b/src/content/content_encoding.rs
index bbab123..f58a936 100644
--- a/src/content/content_encoding.rs
+++ b/src/content/content_encoding.rs
@@ -4,6 +4,7 @@ use crate::headers::{HeaderName, HeaderValue, Headers, CONTENT_ENCODING};
 use crate::{
     content::{Encoding, EncodingProposal},
     headers::Header,
+    Status,
 };
 
 use std::fmt::{self, Debug};
@@ -57,7 +58,7 @@ impl ContentEncoding {
             }
         }
 
-        let inner = inner.expect("Headers instance with no entries found");
+        let inner = inner.status(400)?;
         Ok(Some(Self { inner }))
     }
 
diff --git a/src/transfer/transfer_encoding.rs b/src/transfer/transfer_encoding.rs
index 7fede4a..df99f7c 100644
--- a/src/transfer/transfer_encoding.rs
+++ b/src/transfer/transfer_encoding.rs
@@ -1,5 +1,6 @@
 use crate::headers::{Header, HeaderName, HeaderValue, Headers, TRANSFER_ENCODING};
 use crate::transfer::{Encoding, EncodingProposal};
+use crate::Status;
 
 use std::fmt::{self, Debug};
 use std::ops::{Deref, DerefMut};
@@ -54,7 +55,7 @@ impl TransferEncoding {
             }
         }
 
-        let inner = inner.expect("Headers instance with no entries found");
+        let inner = inner.status(400)?;
         Ok(Some(Self { inner }))
     }
 
-- 
2.43.0


From 9ecee5db0b79519cfc078a49a2d1545642a52a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:18 +0000
Subject: [PATCH 21/37] fix: ignore empty elements of Allow, If-Match,
 If-None-Match and Vary lists

---
 src/conditional/if_match.rs      | 4 ++++
 src/conditional/if_none_match.rs | 4 ++++
 src/conditional/vary.rs          | 4 ++++
 src/server/allow.rs              | 7 ++++++-
 4 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/conditional/if_match.rs b/src/conditional/if_match.rs
index 5f84c2b..d726386 100644
--- a/src/conditional/if_match.rs
+++ b/src/conditional/if_match.rs
@@ -66,6 +66,10 @@ impl IfMatch {
                     wildcard = true;
                     continue;
                 }
+                // Empty list elements are ignored, RFC 7230 section 7.
+                if part.is_empty() {
+                    continue;
+                }
                 entries.push(ETag::from_str(part)?);
             }
         }
diff --git a/src/conditional/if_none_match.rs b/src/conditional/if_none_match.rs
index b4b37af..9c61e41 100644
--- a/src/conditional/if_none_match.rs
+++ b/src/conditional/if_none_match.rs
@@ -72,6 +72,10 @@ impl IfNoneMatch {
                     wildcard = true;
                     continue;
                 }
+                // Empty list elements are ignored, RFC 7230 section 7.
+                if part.is_empty() {
+                    continue;
+                }
                 entries.push(ETag::from_str(part)?);
             }
         }
diff --git a/src/conditional/vary.rs b/src/conditional/vary.rs
index 9023811..23d0600 100644
--- a/src/conditional/vary.rs
+++ b/src/conditional/vary.rs
@@ -66,6 +66,10 @@ impl Vary {
                     wildcard = true;
                     continue;
                 }
+                // Empty list elements are ignored, RFC 7230 section 7.
+                if part.is_empty() {
+                    continue;
+                }
                 let entry = HeaderName::from_str(part.trim())?;
                 entries.push(entry);
             }
diff --git a/src/server/allow.rs b/src/server/allow.rs
index 9377a3f..9512d4b 100644
--- a/src/server/allow.rs
+++ b/src/server/allow.rs
@@ -58,7 +58,12 @@ impl Allow {
 
         for value in headers {
             for part in value.as_str().trim().split(',') {
-                let method = Method::from_str(part.trim())?;
+                let part = part.trim();
+                // Empty list elements are ignored, RFC 7230 section 7.
+                if part.is_empty() {
+                    continue;
+                }
+                let method = Method::from_str(part)?;
                 entries.insert(method);
             }
         }
-- 
2.43.0


From 521480fa2dd5a817abbdbf928e9492407f9c37cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:16 +0000
Subject: [PATCH 22/37] fix: a comma inside an entity tag does not split
 If-Match and If-None-Match lists

---
 src/conditional/etag.rs          | 11 +++++++++++
 src/conditional/if_match.rs      |  2 +-
 src/conditional/if_none_match.rs |  2 +-
 3 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/conditional/etag.rs b/src/conditional/etag.rs
index c7245f8..9f77b85 100644
--- a/src/conditional/etag.rs
+++ b/src/conditional/etag.rs
@@ -76,6 +76,17 @@ impl ETag {
         matches!(self, Self::Weak(_))
     }
 
+    /// Split a list of entity tags; a comma inside a quoted tag is part of the tag.
+    pub(crate) fn split_list(s: &str) -> impl Iterator<Item = &str> {
+        let mut quoted = false;
+        s.split(move |c| {
+            if c == '"' {
+                quoted = !quoted;
+            }
+            c == ',' && !quoted
+        })
+    }
+
     /// Create an Etag from a string.
     pub(crate) fn from_str(s: &str) -> crate::Result<Self> {
         let mut weak = false;
diff --git a/src/conditional/if_match.rs b/src/conditional/if_match.rs
index d726386..f30d47f 100644
--- a/src/conditional/if_match.rs
+++ b/src/conditional/if_match.rs
@@ -60,7 +60,7 @@ impl IfMatch {
 
         let mut wildcard = false;
         for value in headers {
-            for part in value.as_str().trim().split(',') {
+            for part in ETag::split_list(value.as_str()) {
                 let part = part.trim();
                 if part == "*" {
                     wildcard = true;
diff --git a/src/conditional/if_none_match.rs b/src/conditional/if_none_match.rs
index 9c61e41..bd2d449 100644
--- a/src/conditional/if_none_match.rs
+++ b/src/conditional/if_none_match.rs
@@ -66,7 +66,7 @@ impl IfNoneMatch {
 
         let mut wildcard = false;
         for value in headers {
-            for part in value.as_str().trim().split(',') {
+            for part in ETag::split_list(value.as_str()) {
                 let part = part.trim();
                 if part == "*" {
                     wildcard = true;
-- 
2.43.0


From 0cd8fb38114cf64c92fafac6f6c98807fe3ceace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:03 +0000
Subject: [PATCH 23/37] fix: write the s-maxage cache directive under the name
 it is read by

---
 src/cache/cache_control/cache_directive.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cache/cache_control/cache_directive.rs b/src/cache/cache_control/cache_directive.rs
index 5e8b0b9..f8f12a0 100644
--- a/src/cache/cache_control/cache_directive.rs
+++ b/src/cache/cache_control/cache_directive.rs
@@ -148,7 +148,7 @@ impl From<CacheDirective> for HeaderValue {
             Private => h("private".to_string()),
             ProxyRevalidate => h("proxy-revalidate".to_string()),
             Public => h("public".to_string()),
-            SMaxAge(dur) => h(format!("s-max-age={}", dur.as_secs())),
+            SMaxAge(dur) => h(format!("s-maxage={}", dur.as_secs())),
             StaleIfError(dur) => h(format!("stale-if-error={}", dur.as_secs())),
             StaleWhileRevalidate(dur) => h(format!("stale-while-revalidate={}", dur.as_secs())),
         }
-- 
2.43.0


From 1612d1c38e846b7ae82a55bdf71001993dbd7466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:09 +0000
Subject: [PATCH 24/37] fix: immutable is valid in responses (RFC 8246) and
 stale-if-error in requests (RFC 5861)

---
 src/cache/cache_control/cache_directive.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/cache/cache_control/cache_directive.rs b/src/cache/cache_control/cache_directive.rs
index f8f12a0..3592a8f 100644
--- a/src/cache/cache_control/cache_directive.rs
+++ b/src/cache/cache_control/cache_directive.rs
@@ -49,7 +49,14 @@ impl CacheDirective {
         use CacheDirective::*;
         matches!(
             self,
-            MaxAge(_) | MaxStale(_) | MinFresh(_) | NoCache | NoStore | NoTransform | OnlyIfCached
+            MaxAge(_)
+                | MaxStale(_)
+                | MinFresh(_)
+                | NoCache
+                | NoStore
+                | NoTransform
+                | OnlyIfCached
+                | StaleIfError(_)
         )
     }
 
@@ -69,6 +76,7 @@ impl CacheDirective {
                 | SMaxAge(_)
                 | StaleIfError(_)
                 | StaleWhileRevalidate(_)
+                | Immutable
         )
     }
 
-- 
2.43.0


From 54a5ce57f5f197210d06ee63e57ee4321904f83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:15 +0000
Subject: [PATCH 25/37] fix: refuse unknown Clear-Site-Data directives instead
 of panicking

---
 src/cache/clear_site_data/directive.rs | 9 +++++++--
 src/cache/clear_site_data/mod.rs       | 4 ++++
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/cache/clear_site_data/directive.rs b/src/cache/clear_site_data/directive.rs
index b178027..58f0f23 100644
--- a/src/cache/clear_site_data/directive.rs
+++ b/src/cache/clear_site_data/directive.rs
@@ -1,3 +1,5 @@
+use crate::{Error, StatusCode};
+
 use std::fmt::Display;
 use std::str::FromStr;
 
@@ -45,7 +47,7 @@ impl Display for ClearDirective {
 }
 
 impl FromStr for ClearDirective {
-    type Err = std::string::ParseError;
+    type Err = Error;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         match s {
@@ -53,7 +55,10 @@ impl FromStr for ClearDirective {
             r#""cookies""# => Ok(Self::Cookies),
             r#""storage""# => Ok(Self::Storage),
             r#""executionContexts""# => Ok(Self::ExecutionContexts),
-            _ => todo!(),
+            _ => Err(Error::from_str(
+                StatusCode::BadRequest,
+                "Invalid Clear-Site-Data directive",
+            )),
         }
     }
 }
diff --git a/src/cache/clear_site_data/mod.rs b/src/cache/clear_site_data/mod.rs
index bb38ab8..7d8d168 100644
--- a/src/cache/clear_site_data/mod.rs
+++ b/src/cache/clear_site_data/mod.rs
@@ -75,6 +75,10 @@ impl ClearSiteData {
                     wildcard = true;
                     continue;
                 }
+                // Empty list elements are ignored, RFC 7230 section 7.
+                if part.is_empty() {
+                    continue;
+                }
                 entries.push(ClearDirective::from_str(part)?);
             }
         }
-- 
2.43.0


From bc10007df88c60eb3e68b8be7893fc6c4053d0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:29 +0000
Subject: [PATCH 26/37] fix: make format_err!(expr) and bail!(expr) usable
 outside the crate

---
 src/macros.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/macros.rs b/src/macros.rs
index e29ae6c..6764610 100644
--- a/src/macros.rs
+++ b/src/macros.rs
@@ -78,7 +78,7 @@ macro_rules! format_err {
     };
     ($err:expr $(,)?) => ({
         let error = $err;
-        Error::new_adhoc(error)
+        $crate::private::new_adhoc(error)
     });
     ($fmt:expr, $($arg:tt)*) => {
         $crate::private::new_adhoc(format!($fmt, $($arg)*))
-- 
2.43.0


From cc4b57d0a39929637b44e8c66ba4e17ee4436640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:29 +0000
Subject: [PATCH 27/37] fix: escape the realm of WWW-Authenticate, and read it
 as a quoted-string

---
 src/auth/www_authenticate.rs | 28 +++++++++++-----------------
 src/parse_utils.rs           | 15 +++++++++++++++
 2 files changed, 26 insertions(+), 17 deletions(-)

diff --git a/src/auth/www_authenticate.rs b/src/auth/www_authenticate.rs
index bf9d7a0..c305b76 100644
--- a/src/auth/www_authenticate.rs
+++ b/src/auth/www_authenticate.rs
@@ -1,5 +1,6 @@
 use crate::bail_status as bail;
 use crate::headers::{HeaderName, HeaderValue, Headers, WWW_AUTHENTICATE};
+use crate::parse_utils::{parse_quoted_string, quoted_string};
 use crate::{auth::AuthenticationScheme, headers::Header};
 
 /// Define the authentication method that should be used to gain access to a
@@ -69,26 +70,15 @@ impl WwwAuthenticate {
         };
 
         let realm = realm.trim_start();
-        let realm = match realm.strip_prefix(r#"realm=""#) {
+        let realm = match realm.strip_prefix("realm=") {
             Some(realm) => realm,
             None => bail!(400, "realm not found"),
         };
 
-        let mut chars = realm.chars();
-        let mut closing_quote = false;
-        let realm = (&mut chars)
-            .take_while(|c| {
-                if c == &'"' {
-                    closing_quote = true;
-                    false
-                } else {
-                    true
-                }
-            })
-            .collect();
-        if !closing_quote {
-            bail!(400, r"Expected a closing quote");
-        }
+        let realm = match parse_quoted_string(realm) {
+            (Some(realm), _) => realm.into_owned(),
+            (None, _) => bail!(400, r"Expected a closing quote"),
+        };
 
         Ok(Some(Self { scheme, realm }))
     }
@@ -120,7 +110,11 @@ impl Header for WwwAuthenticate {
     }
 
     fn header_value(&self) -> HeaderValue {
-        let output = format!(r#"{} realm="{}", charset="UTF-8""#, self.scheme, self.realm);
+        let output = format!(
+            r#"{} realm={}, charset="UTF-8""#,
+            self.scheme,
+            quoted_string(&self.realm)
+        );
 
         // SAFETY: the internal string is validated to be ASCII.
         unsafe { HeaderValue::from_bytes_unchecked(output.into()) }
diff --git a/src/parse_utils.rs b/src/parse_utils.rs
index ac0b869..c45c31d 100644
--- a/src/parse_utils.rs
+++ b/src/parse_utils.rs
@@ -117,6 +117,21 @@ pub(crate) fn parse_quoted_string(input: &str) -> (Option<Cow<'_, str>>, &str) {
     }
 }
 
+/// Write a text as a quoted-string, escaping what would end it early.
+///
+/// https://tools.ietf.org/html/rfc7230#section-3.2.6
+pub(crate) fn quoted_string(input: &str) -> String {
+    let mut string = String::from("\"");
+    for ch in input.chars() {
+        if let '\\' | '"' = ch {
+            string.push('\\');
+        }
+        string.push(ch);
+    }
+    string.push('"');
+    string
+}
+
 #[cfg(test)]
 mod test {
     use super::*;
-- 
2.43.0


From bf45576ad0a550ea934ea5cac32b2ea675546c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:29 +0000
Subject: [PATCH 28/37] fix: answer a short or non-hexadecimal traceparent with
 400 instead of panicking

---
 src/trace/trace_context.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/trace/trace_context.rs b/src/trace/trace_context.rs
index 3bc062f..a4d8251 100644
--- a/src/trace/trace_context.rs
+++ b/src/trace/trace_context.rs
@@ -106,14 +106,14 @@ impl TraceContext {
             Some(header) => header,
             None => return Ok(None),
         };
-        let parts: Vec<&str> = traceparent.as_str().split('-').collect();
+        let mut parts = traceparent.as_str().split('-');
 
         Ok(Some(Self {
             id: fastrand::u64(..),
-            version: u8::from_str_radix(parts[0], 16)?,
-            trace_id: u128::from_str_radix(parts[1], 16).status(400)?,
-            parent_id: Some(u64::from_str_radix(parts[2], 16).status(400)?),
-            flags: u8::from_str_radix(parts[3], 16).status(400)?,
+            version: u8::from_str_radix(parts.next().status(400)?, 16).status(400)?,
+            trace_id: u128::from_str_radix(parts.next().status(400)?, 16).status(400)?,
+            parent_id: Some(u64::from_str_radix(parts.next().status(400)?, 16).status(400)?),
+            flags: u8::from_str_radix(parts.next().status(400)?, 16).status(400)?,
         }))
     }
 
-- 
2.43.0


From 9fedc3b86e9d6fa36861e66241e47b452185179c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:29 +0000
Subject: [PATCH 29/37] fix: quote Server-Timing descriptions, and refuse
 impossible durations instead of panicking

---
 src/parse_utils.rs                | 24 +++++++++++++++++++
 src/trace/server_timing/metric.rs |  5 ++--
 src/trace/server_timing/parse.rs  | 38 +++++++++++++++----------------
 3 files changed, 46 insertions(+), 21 deletions(-)

diff --git a/src/parse_utils.rs b/src/parse_utils.rs
index c45c31d..5ab7445 100644
--- a/src/parse_utils.rs
+++ b/src/parse_utils.rs
@@ -132,6 +132,30 @@ pub(crate) fn quoted_string(input: &str) -> String {
     string
 }
 
+/// Split on a separator, except where it is inside a quoted-string.
+pub(crate) fn split_unquoted(input: &str, separator: char) -> Vec<&str> {
+    let mut parts = vec![];
+    let mut start = 0;
+    let mut quoted = false;
+    let mut escaped = false;
+
+    for (i, c) in input.char_indices() {
+        if escaped {
+            escaped = false;
+        } else if c == '"' {
+            quoted = !quoted;
+        } else if quoted {
+            escaped = c == '\\';
+        } else if c == separator {
+            parts.push(&input[start..i]);
+            start = i + c.len_utf8();
+        }
+    }
+
+    parts.push(&input[start..]);
+    parts
+}
+
 #[cfg(test)]
 mod test {
     use super::*;
diff --git a/src/trace/server_timing/metric.rs b/src/trace/server_timing/metric.rs
index ed55c18..8f00cd3 100644
--- a/src/trace/server_timing/metric.rs
+++ b/src/trace/server_timing/metric.rs
@@ -1,6 +1,7 @@
 use std::time::Duration;
 
 use crate::headers::HeaderValue;
+use crate::parse_utils::quoted_string;
 
 /// An individual entry into `ServerTiming`.
 //
@@ -61,10 +62,10 @@ impl From<Metric> for HeaderValue {
 
         match (entry.dur, entry.desc) {
             (Some(dur), Some(desc)) => {
-                string.push_str(&format!("; dur={}; desc=\"{}\"", f(dur), desc))
+                string.push_str(&format!("; dur={}; desc={}", f(dur), quoted_string(&desc)))
             }
             (Some(dur), None) => string.push_str(&format!("; dur={}", f(dur))),
-            (None, Some(desc)) => string.push_str(&format!("; desc=\"{}\"", desc)),
+            (None, Some(desc)) => string.push_str(&format!("; desc={}", quoted_string(&desc))),
             (None, None) => {}
         };
 
diff --git a/src/trace/server_timing/parse.rs b/src/trace/server_timing/parse.rs
index 4469336..6477b75 100644
--- a/src/trace/server_timing/parse.rs
+++ b/src/trace/server_timing/parse.rs
@@ -1,13 +1,14 @@
 use std::time::Duration;
 
 use super::Metric;
+use crate::parse_utils::{parse_quoted_string, split_unquoted};
 use crate::{ensure, format_err, StatusCode};
 
 /// Parse multiple entries from a single header.
 ///
 /// Each entry is comma-delimited.
 pub(super) fn parse_header(s: &str, entries: &mut Vec<Metric>) -> crate::Result<()> {
-    for part in s.trim().split(',') {
+    for part in split_unquoted(s.trim(), ',') {
         let entry = parse_entry(part).map_err(|mut e| {
             e.set_status(StatusCode::BadRequest);
             e
@@ -30,7 +31,7 @@ pub(super) fn parse_header(s: &str, entries: &mut Vec<Metric>) -> crate::Result<
 //
 /// Source: https://w3c.github.io/server-timing/#the-server-timing-header-field
 fn parse_entry(s: &str) -> crate::Result<Metric> {
-    let mut parts = s.trim().split(';');
+    let mut parts = split_unquoted(s.trim(), ';').into_iter();
 
     // Get the name. This is non-optional.
     let name = parts
@@ -50,12 +51,12 @@ fn parse_entry(s: &str) -> crate::Result<Metric> {
 
         part = part.trim_start();
 
-        let mut params = part.split('=');
+        let mut params = part.splitn(2, '=');
         let name = params
             .next()
             .ok_or_else(|| format_err!("Server timing params must have a name"))?
             .trim_end();
-        let mut value = params
+        let value = params
             .next()
             .ok_or_else(|| format_err!("Server timing params must have a value"))?
             .trim_start();
@@ -65,24 +66,23 @@ fn parse_entry(s: &str) -> crate::Result<Metric> {
                 let millis: f64 = value.parse().map_err(|_| {
                         format_err!("Server timing duration params must be a valid double-precision floating-point number.")
                     })?;
-                dur = Some(Duration::from_secs_f64(millis) / 1000);
+                let millis = Duration::try_from_secs_f64(millis).map_err(|_| {
+                    format_err!("Server timing duration params must be a valid duration.")
+                })?;
+                dur = Some(millis / 1000);
             }
             "desc" => {
                 // Ensure quotes line up, and strip them from the resulting output
-                if value.starts_with('"') {
-                    value = &value[1..value.len()];
-                    ensure!(
-                        value.ends_with('"'),
-                        "Server timing description params must use matching quotes"
-                    );
-                    value = &value[0..value.len() - 1];
-                } else {
-                    ensure!(
-                        !value.ends_with('"'),
-                        "Server timing description params must use matching quotes"
-                    );
-                }
-                desc = Some(value.to_string());
+                desc = Some(match parse_quoted_string(value) {
+                    (Some(value), "") => value.into_owned(),
+                    _ => {
+                        ensure!(
+                            !value.starts_with('"') && !value.ends_with('"'),
+                            "Server timing description params must use matching quotes"
+                        );
+                        value.to_string()
+                    }
+                });
             }
             _ => continue,
         }
-- 
2.43.0


From 99b2e5b8a5270f5537e57dc8fd29766130bf624a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:29 +0000
Subject: [PATCH 30/37] fix: read Strict-Transport-Security directives without
 regard to case

---
 src/security/strict_transport_security.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/security/strict_transport_security.rs b/src/security/strict_transport_security.rs
index f6c4fe4..879a13d 100644
--- a/src/security/strict_transport_security.rs
+++ b/src/security/strict_transport_security.rs
@@ -111,9 +111,9 @@ impl StrictTransportSecurity {
         // the spec we should just ignore it.
         for s in value.as_str().split(';') {
             let s = s.trim();
-            if s == "includesubdomains" {
+            if s.eq_ignore_ascii_case("includesubdomains") {
                 include_subdomains = true;
-            } else if s == "preload" {
+            } else if s.eq_ignore_ascii_case("preload") {
                 preload = true;
             } else {
                 let (key, value) = match s.split_once('=') {
@@ -121,7 +121,7 @@ impl StrictTransportSecurity {
                     None => continue, // We don't recognize the directive, continue.
                 };
 
-                if key == "max-age" {
+                if key.eq_ignore_ascii_case("max-age") {
                     let secs = value.parse::<u64>().status(400)?;
                     max_age = Some(Duration::from_secs(secs));
                 }
-- 
2.43.0


From e76ed463f4c8889188f85412160a00567954d368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:29 +0000
Subject: [PATCH 31/37] fix: applying a Content-Security-Policy twice does not
 repeat its directives

---
 src/security/csp.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/security/csp.rs b/src/security/csp.rs
index 9478f34..30890d9 100644
--- a/src/security/csp.rs
+++ b/src/security/csp.rs
@@ -346,12 +346,13 @@ impl ContentSecurityPolicy {
 
     /// Create and retrieve the policy value
     fn value(&mut self) -> String {
+        let mut policies = self.policy.clone();
         for (directive, sources) in &self.directives {
             let policy = format!("{} {}", directive, sources.join(" "));
-            self.policy.push(policy);
-            self.policy.sort();
+            policies.push(policy);
+            policies.sort();
         }
-        self.policy.join("; ")
+        policies.join("; ")
     }
 
     /// Sets the `Content-Security-Policy` (CSP) HTTP header to prevent cross-site injections
-- 
2.43.0


From 404b565f7c0da20f87e832263a0173d09b15d5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:29 +0000
Subject: [PATCH 32/37] fix: Timing-Allow-Origin reads `null`, white space
 after an origin and empty elements

---
 src/security/timing_allow_origin.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/security/timing_allow_origin.rs b/src/security/timing_allow_origin.rs
index 443427f..a18843a 100644
--- a/src/security/timing_allow_origin.rs
+++ b/src/security/timing_allow_origin.rs
@@ -87,9 +87,10 @@ impl TimingAllowOrigin {
         let mut origins = vec![];
         for header in headers {
             for origin in header.as_str().split(',') {
-                match origin.trim_start() {
+                match origin.trim() {
                     "*" => wildcard = true,
-                    r#""null""# => continue,
+                    // Empty list elements are ignored, RFC 7230 section 7.
+                    "" | "null" | r#""null""# => continue,
                     origin => {
                         let url = Url::parse(origin).status(400)?;
                         origins.push(url);
-- 
2.43.0


From a4c83b9bfd79accb9b82b8da5b1bddf125491602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:29 +0000
Subject: [PATCH 33/37] fix: keep every value of a repeated header, and check
 it, when converting from http::HeaderMap

---
 src/hyperium_http.rs | 23 +++++++----------------
 1 file changed, 7 insertions(+), 16 deletions(-)

diff --git a/src/hyperium_http.rs b/src/hyperium_http.rs
index 81d3342..ca25d61 100644
--- a/src/hyperium_http.rs
+++ b/src/hyperium_http.rs
@@ -96,18 +96,7 @@ impl TryFrom<http::HeaderMap> for Headers {
     fn try_from(hyperium_headers: http::HeaderMap) -> Result<Self, Self::Error> {
         let mut headers = Headers::new();
 
-        hyperium_headers
-            .into_iter()
-            .map(|(name, value)| {
-                if let Some(name) = name {
-                    let value: HeaderValue = value.try_into()?;
-                    let name: HeaderName = name.try_into()?;
-                    headers.append(name, value)?;
-                }
-                Ok(())
-            })
-            .collect::<Result<Vec<()>, Error>>()?;
-
+        hyperium_headers_to_headers(hyperium_headers, &mut headers)?;
         Ok(headers)
     }
 }
@@ -144,12 +133,14 @@ fn hyperium_headers_to_headers(
     hyperium_headers: http::HeaderMap,
     headers: &mut Headers,
 ) -> crate::Result<()> {
+    // Only the first of the values of a header comes with its name.
+    let mut last_name: Option<HeaderName> = None;
     for (name, value) in hyperium_headers {
-        let value = value.as_bytes().to_owned();
-        let value = unsafe { HeaderValue::from_bytes_unchecked(value) };
+        let value: HeaderValue = value.try_into()?;
         if let Some(name) = name {
-            let name = name.as_str().as_bytes().to_owned();
-            let name = unsafe { HeaderName::from_bytes_unchecked(name) };
+            last_name = Some(name.try_into()?);
+        }
+        if let Some(name) = &last_name {
             headers.append(name, value)?;
         }
     }
-- 
2.43.0


From 90c35bd66d59c2859b094374178dafb57188793d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:29 +0000
Subject: [PATCH 34/37] fix: converting an http::Request or http::Response with
 an unknown method or status is an error, not a panic

---
 src/hyperium_http.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hyperium_http.rs b/src/hyperium_http.rs
index ca25d61..5c6b3a2 100644
--- a/src/hyperium_http.rs
+++ b/src/hyperium_http.rs
@@ -175,7 +175,7 @@ impl TryFrom<http::Request<Body>> for Request {
 
     fn try_from(req: http::Request<Body>) -> Result<Self, Self::Error> {
         let (parts, body) = req.into_parts();
-        let method = parts.method.into();
+        let method = Method::from_str(parts.method.as_str())?;
         let url = from_uri_to_url(parts.uri)?;
         let mut req = Request::new(method, url);
         req.set_body(body);
@@ -202,7 +202,7 @@ impl TryFrom<http::Response<Body>> for Response {
     type Error = crate::Error;
     fn try_from(res: http::Response<Body>) -> Result<Self, Self::Error> {
         let (parts, body) = res.into_parts();
-        let mut res = Response::new(parts.status);
+        let mut res = Response::new(StatusCode::try_from(parts.status.as_u16())?);
         res.set_body(body);
         res.set_version(Some(parts.version.into()));
         hyperium_headers_to_headers(parts.headers, res.as_mut())?;
-- 
2.43.0


From edf1c7542edde59bca481524a2dcdf42254e7f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:29 +0000
Subject: [PATCH 35/37] fix: the Content-Type of a converted http::Request or
 http::Response is not repeated

---
 src/hyperium_http.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hyperium_http.rs b/src/hyperium_http.rs
index 5c6b3a2..d4ee430 100644
--- a/src/hyperium_http.rs
+++ b/src/hyperium_http.rs
@@ -178,9 +178,9 @@ impl TryFrom<http::Request<Body>> for Request {
         let method = Method::from_str(parts.method.as_str())?;
         let url = from_uri_to_url(parts.uri)?;
         let mut req = Request::new(method, url);
-        req.set_body(body);
         req.set_version(Some(parts.version.into()));
         hyperium_headers_to_headers(parts.headers, req.as_mut())?;
+        req.set_body(body);
         Ok(req)
     }
 }
@@ -203,9 +203,9 @@ impl TryFrom<http::Response<Body>> for Response {
     fn try_from(res: http::Response<Body>) -> Result<Self, Self::Error> {
         let (parts, body) = res.into_parts();
         let mut res = Response::new(StatusCode::try_from(parts.status.as_u16())?);
-        res.set_body(body);
         res.set_version(Some(parts.version.into()));
         hyperium_headers_to_headers(parts.headers, res.as_mut())?;
+        res.set_body(body);
         Ok(res)
     }
 }
-- 
2.43.0


From 9155b299af3a03f0ea67a87a8f169107a83e1977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:29 +0000
Subject: [PATCH 36/37] fix: Request::host and Request::remote read Forwarded
 elements, white space and quotes

---
 src/request.rs | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/request.rs b/src/request.rs
index 6b3bb35..2602fed 100644
--- a/src/request.rs
+++ b/src/request.rs
@@ -13,6 +13,7 @@ use crate::headers::{
     CONTENT_TYPE,
 };
 use crate::mime::Mime;
+use crate::parse_utils::split_unquoted;
 use crate::trailers::{self, Trailers};
 use crate::{Body, Extensions, Method, Url, Version};
 
@@ -122,16 +123,19 @@ impl Request {
     }
 
     fn forwarded_header_part(&self, part: &str) -> Option<&str> {
-        self.header("Forwarded").and_then(|header| {
-            header.as_str().split(';').find_map(|key_equals_value| {
-                let parts = key_equals_value.split('=').collect::<Vec<_>>();
-                if parts.len() == 2 && parts[0].eq_ignore_ascii_case(part) {
-                    Some(parts[1])
-                } else {
-                    None
+        let header = self.header("Forwarded")?;
+        for element in split_unquoted(header.as_str(), ',') {
+            for pair in split_unquoted(element, ';') {
+                if let Some((key, value)) = pair.split_once('=') {
+                    if key.trim().eq_ignore_ascii_case(part) {
+                        let value = value.trim();
+                        let unquoted = value.strip_prefix('"').and_then(|v| v.strip_suffix('"'));
+                        return Some(unquoted.unwrap_or(value));
+                    }
                 }
-            })
-        })
+            }
+        }
+        None
     }
 
     fn forwarded_for(&self) -> Option<&str> {
-- 
2.43.0


From 94637804045acdb9c1d25071aaf6600f6defec92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:23 +0000
Subject: [PATCH 37/37] fix: ignore empty elements in Server-Timing

---
 src/trace/server_timing/parse.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/trace/server_timing/parse.rs b/src/trace/server_timing/parse.rs
index 6477b75..c6d9dea 100644
--- a/src/trace/server_timing/parse.rs
+++ b/src/trace/server_timing/parse.rs
@@ -9,6 +9,10 @@ use crate::{ensure, format_err, StatusCode};
 /// Each entry is comma-delimited.
 pub(super) fn parse_header(s: &str, entries: &mut Vec<Metric>) -> crate::Result<()> {
     for part in split_unquoted(s.trim(), ',') {
+        // Empty list elements are ignored, RFC 7230 section 7.
+        if part.trim().is_empty() {
+            continue;
+        }
         let entry = parse_entry(part).map_err(|mut e| {
             e.set_status(StatusCode::BadRequest);
             e
-- 
2.43.0

