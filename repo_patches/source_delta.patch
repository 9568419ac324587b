From 365a2b1b7a7fe9e2ed11a6a2e8bc3ae9108dd1c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:52 +0000
Subject: [PATCH 01/36] fix: keep the leading zeros when looking up metadata
 and number type

number_type() and metadata() looked at the numeric value only, so a
number with significant leading zeros (+390236618300) was classified
Unknown with no country while is_valid() said it was valid.
---
 src/phone_number.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/phone_number.rs b/src/phone_number.rs
index 36a7e69..1c20e8c 100644
--- a/src/phone_number.rs
+++ b/src/phone_number.rs
@@ -206,11 +206,7 @@ impl PhoneNumber {
     /// Get the metadata that applies to this phone number from the given
     /// database.
     pub fn metadata<'a>(&self, database: &'a Database) -> Option<&'a Metadata> {
-        match validator::source_for(
-            database,
-            self.code.value(),
-            &self.national.value().to_string(),
-        )? {
+        match validator::source_for(database, self.code.value(), &self.national.to_string())? {
             Left(region) => database.by_id(region.as_ref()),
             Right(code) => database.by_code(&code).and_then(|m| m.into_iter().next()),
         }
@@ -234,7 +230,7 @@ impl PhoneNumber {
     /// Determine the [`Type`] of the phone number with the given `Database`.
     pub fn number_type_with(&self, database: &Database) -> Type {
         match self.metadata(database) {
-            Some(metadata) => validator::number_type(metadata, &self.national.value().to_string()),
+            Some(metadata) => validator::number_type(metadata, &self.national.to_string()),
             None => Type::Unknown,
         }
     }
-- 
2.43.0


From 2c64a518fc00fa59e8614df4fba8c95c92d8df96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:54 +0000
Subject: [PATCH 02/36] fix: match descriptors against the whole national
 number

Descriptor patterns were only required to match a prefix, so a number
starting like a valid one but with further digits (+376312345000,
+20347036925) was reported as valid and given a type. libphonenumber
requires the pattern to match the complete national number.
---
 src/metadata/database.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/metadata/database.rs b/src/metadata/database.rs
index a15e852..192ffb5 100644
--- a/src/metadata/database.rs
+++ b/src/metadata/database.rs
@@ -66,6 +66,10 @@ impl Database {
             Ok(RegexBuilder::new(&value).ignore_whitespace(true).build()?)
         };
 
+        // A descriptor describes whole numbers, so its pattern has to match all of
+        // the national number and not just the beginning of it.
+        let anchored = |value: String| regex(format!("^(?:{value})$"));
+
         let descriptor =
             |desc: loader::Descriptor| -> Result<super::Descriptor, error::LoadMetadata> {
                 desc.national_number.as_ref().unwrap();
@@ -80,7 +84,7 @@ impl Database {
                                 name: "national_number".into(),
                             })
                         })
-                        .and_then(regex)?,
+                        .and_then(anchored)?,
 
                     possible_length: desc.possible_length,
                     possible_local_length: desc.possible_local_length,
-- 
2.43.0


From 2b52716cd87f04bb7d43bc8cd6d10213c35f1011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:01 +0000
Subject: [PATCH 03/36] fix: strip the national prefix only once, and only if
 it is one

After the national prefix for parsing had been handled, anything that
still looked like the national prefix was removed again, and without a
prefix for parsing it was removed even when that turned a number that
matches the region into one that does not: +78005553535 lost the 8 of
its area code. Like libphonenumber, treat the national prefix as the
prefix for parsing when there is none, keep numbers that are viable only
with the prefix, and strip at most once.
---
 src/parser/helper.rs | 7 ++++++-
 src/parser/mod.rs    | 9 +--------
 2 files changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/parser/helper.rs b/src/parser/helper.rs
index fb6dc53..a229cd3 100644
--- a/src/parser/helper.rs
+++ b/src/parser/helper.rs
@@ -285,7 +285,12 @@ pub fn national_number<'a>(meta: &Metadata, mut number: Number<'a>) -> Number<'a
         re
     } else {
         if let Some(prefix) = meta.national_prefix.as_ref() {
-            if number.national.starts_with(prefix) {
+            let general = &meta.descriptors.general;
+
+            // Do not turn a viable number into one that is not.
+            if let Some(stripped) = number.national.strip_prefix(prefix.as_str())
+                && (general.is_match(stripped) || !general.is_match(&number.national))
+            {
                 number.national = trim(number.national, prefix.len());
             }
         }
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 1db0b32..c5c0901 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -84,14 +84,7 @@ pub fn parse_with<S: AsRef<str>>(
 
     // Extract carrier and strip national prefix if present.
     if let Some(meta) = meta {
-        let mut potential = helper::national_number(meta, number.clone());
-
-        // Strip national prefix if present.
-        if let Some(prefix) = meta.national_prefix.as_ref() {
-            if potential.national.starts_with(prefix) {
-                potential.national = helper::trim(potential.national, prefix.len());
-            }
-        }
+        let potential = helper::national_number(meta, number.clone());
 
         if validator::length(meta, &potential, Type::Unknown) != Validation::TooShort {
             number = potential;
-- 
2.43.0


From 8ce2dae768beec7a2af0646fd9ff5754d3853d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:04 +0000
Subject: [PATCH 04/36] fix: take only the carrier code for the carrier, and
 test what is left

The whole national prefix ended up as the carrier when the prefix
pattern has no capture groups (the carrier of 020 7031 3000 in GB was
0), the rest of the number did when it has one and a transform rule
(AG), and an optional carrier group that did not take part made the
parser panic. The check that the number stays viable without the prefix
looked at the number with the prefix still on it, so prefixes were
stripped from numbers that need them.
---
 src/parser/helper.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/parser/helper.rs b/src/parser/helper.rs
index a229cd3..8fb6e61 100644
--- a/src/parser/helper.rs
+++ b/src/parser/helper.rs
@@ -323,11 +323,13 @@ pub fn national_number<'a>(meta: &Metadata, mut number: Number<'a>) -> Number<'a
         .unwrap();
 
     if transform.is_none() || last.is_none() {
-        if viable && !meta.descriptors.general.is_match(&number.national[start..]) {
+        if viable && !meta.descriptors.general.is_match(&number.national[end..]) {
             return number;
         }
 
-        number.carrier = last.filter(|_| groups > 0).map(Into::into);
+        // The first capture group is the carrier code, if there are any groups at
+        // all; group 0 (the whole prefix) is not one.
+        number.carrier = last.and(first).map(Into::into);
 
         number.national = trim(number.national, end);
     } else if let Some(transform) = transform {
@@ -337,7 +339,9 @@ pub fn national_number<'a>(meta: &Metadata, mut number: Number<'a>) -> Number<'a
             return number;
         }
 
-        number.carrier = Some(first.unwrap().into());
+        // The last capture group is what is kept of the number, so there is only a
+        // carrier code if there is another one before it.
+        number.carrier = first.filter(|_| groups > 2).map(Into::into);
         number.national = transformed.into();
     }
 
-- 
2.43.0


From 5a0f12525eeea55339ed5b0ba238b1de860688dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:00 +0000
Subject: [PATCH 05/36] fix: compare numbers with the lengths their region has

The possible lengths were looked up the wrong way around, and the general
description of a region has none in the first place, so that every number
of every region had an invalid length. With that, a national number
beginning with the digits of its own country code always lost them: the
Indian 9123456789 was parsed as 23456789. Take the lengths of a region
from its number types, and decide whether the digits are a country code,
and whether the national prefix can be dropped, the way libphonenumber
does.
---
 src/parser/helper.rs | 23 ++++++++++++++------
 src/parser/mod.rs    |  6 ++++-
 src/validator.rs     | 52 +++++++++++++++++++++++++++++++++++++++-----
 3 files changed, 68 insertions(+), 13 deletions(-)

diff --git a/src/parser/helper.rs b/src/parser/helper.rs
index 8fb6e61..5704ed1 100644
--- a/src/parser/helper.rs
+++ b/src/parser/helper.rs
@@ -17,7 +17,7 @@ use crate::country;
 use crate::error;
 use crate::metadata::{Database, Metadata};
 use crate::phone_number::Type;
-use crate::validator;
+use crate::validator::{self, Validation};
 use fnv::FnvHashMap;
 use nom::{
     AsChar, IResult,
@@ -194,12 +194,21 @@ pub fn country_code<'a>(
                 let meta = database.by_id(country.as_ref()).unwrap();
                 let code = meta.country_code.to_string();
 
-                if number.national.starts_with(&code)
-                    && (!meta.descriptors().general().is_match(&number.national)
-                        || !validator::length(meta, &number, Type::Unknown).is_possible())
-                {
-                    number.country = country::Source::Number;
-                    number.national = trim(number.national, code.len());
+                if number.national.starts_with(&code) {
+                    let general = meta.descriptors().general();
+                    let mut stripped = number.clone();
+                    stripped.national = trim(stripped.national, code.len());
+
+                    // The digits of the country code can also be the first ones of the
+                    // national number, they are the country code only if the number is
+                    // too long with them, or makes sense only without them.
+                    if validator::length(meta, &number, Type::Unknown) == Validation::TooLong
+                        || (!general.is_match(&number.national)
+                            && general.is_match(&national_number(meta, stripped.clone()).national))
+                    {
+                        number = stripped;
+                        number.country = country::Source::Number;
+                    }
                 }
 
                 number.prefix = Some(code.into());
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index c5c0901..4a4bb53 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -86,7 +86,11 @@ pub fn parse_with<S: AsRef<str>>(
     if let Some(meta) = meta {
         let potential = helper::national_number(meta, number.clone());
 
-        if validator::length(meta, &potential, Type::Unknown) != Validation::TooShort {
+        // Keep the prefix if what is left without it can not be dialled.
+        if matches!(
+            validator::length(meta, &potential, Type::Unknown),
+            Validation::IsPossible | Validation::TooLong
+        ) {
             number = potential;
         }
     }
diff --git a/src/validator.rs b/src/validator.rs
index fb6ba37..16efbce 100644
--- a/src/validator.rs
+++ b/src/validator.rs
@@ -105,6 +105,38 @@ pub fn is_valid_with(database: &Database, number: &PhoneNumber) -> bool {
         .unwrap_or(false)
 }
 
+/// The lengths numbers of any type can have, and those only local numbers can
+/// have. The general descriptor does not list any by itself.
+fn general_lengths(meta: &Metadata) -> (Vec<u16>, Vec<u16>) {
+    let descriptors = &meta.descriptors;
+    let types = [
+        Some(&descriptors.general),
+        descriptors.fixed_line.as_ref(),
+        descriptors.mobile.as_ref(),
+        descriptors.toll_free.as_ref(),
+        descriptors.premium_rate.as_ref(),
+        descriptors.shared_cost.as_ref(),
+        descriptors.personal_number.as_ref(),
+        descriptors.voip.as_ref(),
+        descriptors.pager.as_ref(),
+        descriptors.uan.as_ref(),
+        descriptors.voicemail.as_ref(),
+    ];
+
+    let mut possible = Vec::new();
+    let mut local = Vec::new();
+    for desc in types.into_iter().flatten() {
+        possible.extend(&desc.possible_length);
+        local.extend(&desc.possible_local_length);
+    }
+
+    possible.sort_unstable();
+    possible.dedup();
+    local.retain(|length| !possible.contains(length));
+
+    (possible, local)
+}
+
 pub fn length(meta: &Metadata, number: &ParseNumber<'_>, kind: Type) -> Validation {
     let desc = if let Some(desc) = meta.descriptors().get(kind) {
         desc
@@ -113,15 +145,25 @@ pub fn length(meta: &Metadata, number: &ParseNumber<'_>, kind: Type) -> Validati
     };
 
     let length = number.national.len() as u16;
-    let local = &desc.possible_local_length[..];
-    let possible = if desc.possible_length.is_empty() {
-        &desc.possible_length[..]
+    let (general, general_local) = general_lengths(meta);
+    let local = if kind == Type::Unknown {
+        &general_local[..]
     } else {
-        &meta.descriptors.general.possible_length[..]
+        &desc.possible_local_length[..]
+    };
+    let possible = if kind == Type::Unknown || desc.possible_length.is_empty() {
+        &general[..]
+    } else {
+        &desc.possible_length[..]
     };
 
     if possible.is_empty() {
-        return Validation::InvalidLength;
+        // Metadata that lists no lengths at all does not rule any out.
+        return if kind == Type::Unknown {
+            Validation::IsPossible
+        } else {
+            Validation::InvalidLength
+        };
     }
 
     let minimum = possible[0];
-- 
2.43.0


From 4d2fd6ed75ed9858f2174203b1eaad5274c21417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:46 +0000
Subject: [PATCH 06/36] fix: strip the national prefix of numbers with a shared
 country code

A number written with its country code and national prefix (+7 8 800 555
35 35, +1 1 650 253 0000) kept the prefix if the code belongs to several
regions, as no region's patterns match with the prefix. Use the rules of
the main region of the code then, like libphonenumber does.
---
 src/parser/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 4a4bb53..a2bc178 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -78,7 +78,11 @@ pub fn parse_with<S: AsRef<str>>(
         match validator::source_for(database, code.value(), without_zeros) {
             Some(Left(region)) => database.by_id(region.as_ref()),
             Some(Right(code)) => database.by_code(&code).and_then(|m| m.into_iter().next()),
-            None => None,
+            // The region can not be told from a number that still has its national
+            // prefix, the main region of the code knows about those.
+            None => database
+                .by_code(&code.value())
+                .and_then(|m| m.into_iter().next()),
         }
     };
 
-- 
2.43.0


From 2dde352925a91bd3f208d431ebffa415c4e0cf1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:41 +0000
Subject: [PATCH 07/36] fix: accept every spelling of an extension outside of
 tel: URIs

Only the second of the three alternatives of the extension pattern was
looked at, so +16502530000;ext=123 with spaces in the number and
"650 253 0000 - 123#" had no number in them.
---
 src/parser/natural.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/parser/natural.rs b/src/parser/natural.rs
index 6428f5c..89442ec 100644
--- a/src/parser/natural.rs
+++ b/src/parser/natural.rs
@@ -21,10 +21,14 @@ pub fn phone_number(i: &str) -> IResult<&str, Number<'_>> {
     let (_, i) = extract(i)?;
     let extension = consts::EXTN_PATTERN.captures(i);
 
-    if let Some(c) = extension.as_ref() {
-        if c.get(0).is_none() || c.get(2).is_none() {
-            return Err(nom::Err::Failure(nom::error::Error::new(i, ErrorKind::Eof)));
-        }
+    // Every way to write an extension has its own capture group.
+    let digits = extension
+        .as_ref()
+        .and_then(|c| c.iter().skip(1).flatten().next())
+        .map(|m| m.as_str());
+
+    if extension.is_some() && digits.is_none() {
+        return Err(nom::Err::Failure(nom::error::Error::new(i, ErrorKind::Eof)));
     }
 
     Ok((
@@ -36,10 +40,7 @@ pub fn phone_number(i: &str) -> IResult<&str, Number<'_>> {
                 .unwrap_or(i)
                 .into(),
 
-            extension: extension
-                .as_ref()
-                .map(|c| c.get(2).unwrap().as_str())
-                .map(Into::into),
+            extension: digits.map(Into::into),
 
             ..Default::default()
         },
-- 
2.43.0


From d03929c9738007ce7e5eb5ba4e278bec8855a9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:46 +0000
Subject: [PATCH 08/36] fix: find the country code of RFC3966 numbers with
 fewer separators

Everything from the plus sign to the first separator was taken for the
country code, so +1650-253-0000 and tel:+4930-123456 were rejected while
+1 650-253-0000 was not.
---
 src/parser/mod.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index a2bc178..02c95fc 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -50,6 +50,15 @@ pub fn parse_with<S: AsRef<str>>(
     // Try to parse the number as RFC3966 or natural language.
     let (_, mut number) = phone_number(string.as_ref()).or(Err(error::Parse::NoNumber))?;
 
+    // The prefix of an RFC3966 number goes up to its first separator, which is
+    // not always where the country code ends.
+    let prefix = number
+        .prefix
+        .take_if(|p| p.chars().any(|c| c.is_ascii_digit()));
+    if let Some(prefix) = prefix {
+        number.national = format!("+{prefix}{}", number.national).into();
+    }
+
     if !is_viable(&number.national) {
         return Err(error::Parse::NoNumber);
     }
-- 
2.43.0


From 395a2446075d72e419d4e995c6cf1cc67b07d6ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:01 +0000
Subject: [PATCH 09/36] fix: format only with patterns that match the whole
 number

A format without leading digits was used whether or not its pattern
matches, which grouped only some of the digits: +888147036925814 was
formatted as +888 147 036 925814.
---
 src/formatter.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index 288783b..ce06ae4 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -209,18 +209,18 @@ fn formatter<'a>(number: &str, formats: &'a [Format]) -> Option<&'a Format> {
     for format in formats {
         let leading = format.leading_digits();
 
-        if leading.is_empty()
+        if (leading.is_empty()
             || leading
                 .last()
                 .unwrap()
                 .find(number)
                 .map(|m| m.start() == 0)
+                .unwrap_or(false))
+            && format
+                .pattern()
+                .find(number)
+                .map(|m| m.start() == 0 && m.end() == number.len())
                 .unwrap_or(false)
-                && format
-                    .pattern()
-                    .find(number)
-                    .map(|m| m.start() == 0 && m.end() == number.len())
-                    .unwrap_or(false)
         {
             return Some(format);
         }
-- 
2.43.0


From 61df3e7d4f173a57ba364f9cc58400c6d7a1aea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:36 +0000
Subject: [PATCH 10/36] fix: do not panic on a country the database does not
 have

parse_with() panicked on a national number whose country is missing from
the given database. Report that there is no country code to be found.
---
 src/parser/helper.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parser/helper.rs b/src/parser/helper.rs
index 5704ed1..ae1129c 100644
--- a/src/parser/helper.rs
+++ b/src/parser/helper.rs
@@ -191,7 +191,9 @@ pub fn country_code<'a>(
 
         country::Source::Default => {
             if let Some(country) = country {
-                let meta = database.by_id(country.as_ref()).unwrap();
+                let meta = database
+                    .by_id(country.as_ref())
+                    .ok_or(error::Parse::InvalidCountryCode)?;
                 let code = meta.country_code.to_string();
 
                 if number.national.starts_with(&code) {
-- 
2.43.0


From 4fcde5d08a9cd70737427ef5acb6dd4dacb278ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:19 +0000
Subject: [PATCH 11/36] fix: do not panic on a shared country code with an
 unknown country

A database may have countries country::Id does not know. Those that have
a country code for themselves were treated as if there was no metadata,
but on those that share it every lookup of a matching number panicked.
---
 src/validator.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/validator.rs b/src/validator.rs
index 16efbce..0169b6e 100644
--- a/src/validator.rs
+++ b/src/validator.rs
@@ -207,11 +207,11 @@ pub fn source_for(
         if let Some(pattern) = meta.leading_digits.as_ref() {
             if let Some(index) = pattern.find(national) {
                 if index.start() == 0 {
-                    return Some(Left(region.parse().unwrap()));
+                    return region.parse().ok().map(Left);
                 }
             }
         } else if number_type(meta, national) != Type::Unknown {
-            return Some(Left(region.parse().unwrap()));
+            return region.parse().ok().map(Left);
         }
     }
 
-- 
2.43.0


From 36e5f2010018f1c52bef70c5c836a80704bafb2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:58 +0000
Subject: [PATCH 12/36] fix: report descriptors without a pattern instead of
 panicking

---
 src/metadata/database.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/metadata/database.rs b/src/metadata/database.rs
index 192ffb5..824cfdf 100644
--- a/src/metadata/database.rs
+++ b/src/metadata/database.rs
@@ -72,9 +72,6 @@ impl Database {
 
         let descriptor =
             |desc: loader::Descriptor| -> Result<super::Descriptor, error::LoadMetadata> {
-                desc.national_number.as_ref().unwrap();
-                desc.national_number.as_ref().unwrap();
-
                 Ok(super::Descriptor {
                     national_number: desc
                         .national_number
-- 
2.43.0


From c7f571463aa0b4f5c495d1dd1521d8d3f044c72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:45 +0000
Subject: [PATCH 13/36] fix: report malformed possible lengths instead of
 panicking

An empty list, a range without its end ("[5-") and one ending with the
largest possible value made loading the metadata panic.
---
 src/metadata/loader.rs | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/metadata/loader.rs b/src/metadata/loader.rs
index 769357c..47062f9 100644
--- a/src/metadata/loader.rs
+++ b/src/metadata/loader.rs
@@ -318,17 +318,13 @@ fn descriptor<R: BufRead>(
         let mut result = Vec::new();
 
         for part in value.split(',').map(str::trim) {
-            if part.as_bytes()[0] == b'[' {
-                let mut parts = part.split('-');
+            let range = part
+                .strip_prefix('[')
+                .and_then(|part| part.strip_suffix(']'))
+                .and_then(|part| part.split_once('-'));
 
-                if let (Some(start), Some(end)) = (parts.next(), parts.next()) {
-                    let start = start[1..].parse::<u16>()?;
-                    let end = end[..end.len() - 1].parse::<u16>()?;
-
-                    for i in start..end + 1 {
-                        result.push(i);
-                    }
-                }
+            if let Some((start, end)) = range {
+                result.extend(start.parse::<u16>()?..=end.parse::<u16>()?);
             } else {
                 result.push(part.parse()?);
             }
-- 
2.43.0


From 43406ae3c69cc5986d16c036b05461007615a2b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:08 +0000
Subject: [PATCH 14/36] fix: do not drop leading zeros beyond the 255th

The count of leading zeros wrapped around, so that a string with 256 of
them was the same national number as one without any.
---
 src/national_number.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/national_number.rs b/src/national_number.rs
index d061926..65baf9c 100644
--- a/src/national_number.rs
+++ b/src/national_number.rs
@@ -27,8 +27,9 @@ impl FromStr for NationalNumber {
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         let zeros = s.chars().take_while(|&c| c == '0').count();
         let value = s[zeros..].parse::<u64>()?;
+        let zeros = u8::try_from(zeros).or(Err(crate::error::Parse::TooLong))?;
 
-        NationalNumber::new(value, zeros as u8)
+        NationalNumber::new(value, zeros)
     }
 }
 
-- 
2.43.0


From 94b652a29b6228adb6fb452ab0c775a4caa2ca5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:51 +0000
Subject: [PATCH 15/36] fix: do not panic on formats without capture groups

A format that uses none of the groups of its pattern made formatting
panic if it also has a national prefix or carrier formatting rule.
---
 src/formatter.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index ce06ae4..f9cb2f3 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -241,12 +241,11 @@ fn replace(
         .replace(
             national,
             &*if let Some(transform) = transform {
+                // Without a group there is nothing the rule could apply to.
                 let first = consts::FIRST_GROUP
                     .captures(formatter.format())
-                    .unwrap()
-                    .get(1)
-                    .unwrap()
-                    .as_str();
+                    .and_then(|c| c.get(1))
+                    .map_or("", |m| m.as_str());
                 let format = transform.replace(consts::NP, meta.national_prefix().unwrap_or(""));
                 let format = format.replace(consts::FG, &format!("${}", first));
                 let format = format.replace(consts::CC, carrier.unwrap_or(""));
-- 
2.43.0


From aef7b66817ff8a32f46bdb85f8799fcf09824fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:32 +0000
Subject: [PATCH 16/36] fix: do not make up an extension without digits

tel:+1-650-253-0000;ext= and ;ext=abc had an empty extension, which
formats as a dangling "ext. ".
---
 src/parser/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 02c95fc..8ad2d27 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -124,7 +124,10 @@ pub fn parse_with<S: AsRef<str>>(
 
         national: number.national.parse()?,
 
-        extension: number.extension.map(|s| Extension(s.into_owned())),
+        extension: number
+            .extension
+            .filter(|s| !s.is_empty())
+            .map(|s| Extension(s.into_owned())),
         carrier: number.carrier.map(|s| Carrier(s.into_owned())),
     })
 }
-- 
2.43.0


From 7a5a8f48612a54657672bcf23acd18ae3703d83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:22 +0000
Subject: [PATCH 17/36] fix: accept metadata with an XML declaration

The file libphonenumber distributes starts with one, and could only be
loaded after removing it.
---
 src/metadata/loader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/metadata/loader.rs b/src/metadata/loader.rs
index 47062f9..ed1e7fd 100644
--- a/src/metadata/loader.rs
+++ b/src/metadata/loader.rs
@@ -99,7 +99,7 @@ fn metadata<R: BufRead>(reader: &mut Reader<R>) -> Result<Vec<Metadata>, error::
 
     loop {
         match reader.read_event_into(&mut buffer)? {
-            Event::Text(_) | Event::Comment(_) | Event::DocType(_) => (),
+            Event::Text(_) | Event::Comment(_) | Event::DocType(_) | Event::Decl(_) => (),
 
             Event::Start(ref e) => match e.name().into_inner() {
                 b"phoneNumberMetadata" => continue,
-- 
2.43.0


From 78c34e098ad24ae9435fc53cc34a9b145aa2641a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:11 +0000
Subject: [PATCH 18/36] fix: accept numbers written with Unicode digits

They are found in the text and can be normalized, but in between the
check for viable numbers knew only ASCII digits, so all of them were
rejected.
---
 src/parser/helper.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/parser/helper.rs b/src/parser/helper.rs
index ae1129c..3063948 100644
--- a/src/parser/helper.rs
+++ b/src/parser/helper.rs
@@ -86,9 +86,8 @@ pub fn alpha(i: &str) -> IResult<&str, char> {
     one_of("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ")(i)
 }
 
-// TODO: Extend with Unicode digits.
 pub fn digit(i: &str) -> IResult<&str, char> {
-    one_of("0123456789")(i)
+    satisfy(|c| c.as_dec_digit().is_some())(i)
 }
 
 pub fn plus(i: &str) -> IResult<&str, char> {
-- 
2.43.0


From 9b2519b10f402d64ab74d8f82eb6c60c71780e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:30 +0000
Subject: [PATCH 19/36] fix: do not take country codes for international
 dialling prefixes

Some IDDs look like the beginning of country codes: with FI (or AX) as
the country hint, +994252258147 lost its 994 to the Finnish 99 followed
by an operator digit and was read as a number of Somalia. Digits after a
plus sign are an IDD only where no country code can be.
---
 src/parser/helper.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/parser/helper.rs b/src/parser/helper.rs
index 3063948..1642ee7 100644
--- a/src/parser/helper.rs
+++ b/src/parser/helper.rs
@@ -255,11 +255,9 @@ pub fn international_prefix<'a>(idd: Option<&Regex>, mut number: Number<'a>) ->
         number.national = trim(number.national, start);
         number = normalize(number, mappings);
 
-        if !idd
-            .and_then(|re| re.find(&number.national))
-            .map(|m| m.start() == 0)
-            .unwrap_or(false)
-        {
+        // An IDD does not belong after a PLUS, so only take it for one where no
+        // country code can be: those do not start with a 0.
+        if !number.national.starts_with('0') {
             return number;
         }
     } else {
-- 
2.43.0


From 6a05c58fab0c68331ecef790de61a9bbddc9d3d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:53 +0000
Subject: [PATCH 20/36] fix: accept fullwidth full stops as separators

---
 src/parser/helper.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/helper.rs b/src/parser/helper.rs
index 1642ee7..384903c 100644
--- a/src/parser/helper.rs
+++ b/src/parser/helper.rs
@@ -78,7 +78,7 @@ pub fn ieof(i: &str) -> IResult<&str, ()> {
 
 pub fn punctuation(i: &str) -> IResult<&str, char> {
     one_of(
-        "-x\u{2010}\u{2011}\u{2012}\u{2013}\u{2014}\u{2015}\u{2212}\u{30FC}\u{FF0D}-\u{FF0F} \u{00A0}\u{00AD}\u{200B}\u{2060}\u{3000}()\u{FF08}\u{FF09}\u{FF3B}\u{FF3D}.[]/~\u{2053}\u{223C}\u{FF5E}",
+        "-x\u{2010}\u{2011}\u{2012}\u{2013}\u{2014}\u{2015}\u{2212}\u{30FC}\u{FF0D}\u{FF0E}\u{FF0F} \u{00A0}\u{00AD}\u{200B}\u{2060}\u{3000}()\u{FF08}\u{FF09}\u{FF3B}\u{FF3D}.[]/~\u{2053}\u{223C}\u{FF5E}",
     )(i)
 }
 
-- 
2.43.0


From 7f843d9994547eac4286364db3cead43dce7d103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:38 +0000
Subject: [PATCH 21/36] fix: do not read an extension label as part of a
 RFC3966 prefix

---
 src/parser/rfc3966.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/rfc3966.rs b/src/parser/rfc3966.rs
index ccaf889..7bb2ebe 100644
--- a/src/parser/rfc3966.rs
+++ b/src/parser/rfc3966.rs
@@ -64,7 +64,7 @@ pub fn phone_number(i: &str) -> IResult<&str, Number<'_>> {
 fn prefix(i: &str) -> IResult<&str, &str> {
     parse! { i =>
         char('+');
-        take_till1(separator)
+        take_while1(|c: char| c.is_ascii_digit())
     }
 }
 
-- 
2.43.0


From e6dcc3dff553cf0d9aad478c637e526357703a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:44 +0000
Subject: [PATCH 22/36] fix: accept extensions after a semicolon

---
 src/parser/rfc3966.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/parser/rfc3966.rs b/src/parser/rfc3966.rs
index 7bb2ebe..85f9cf8 100644
--- a/src/parser/rfc3966.rs
+++ b/src/parser/rfc3966.rs
@@ -12,6 +12,7 @@
 // See the License for the specific language governing permissions and
 // limitations under the License.
 
+use crate::consts;
 use crate::parser::helper::*;
 use fnv::FnvHashMap;
 use nom::{
@@ -37,6 +38,11 @@ pub fn phone_number(i: &str) -> IResult<&str, Number<'_>> {
         let params = opt(parameters);
     };
 
+    // What follows the `;` may be an extension instead, as in `253-0000;123`.
+    if params.is_none() && consts::EXTN_PATTERN.find(i).is_some_and(|m| m.start() == 0) {
+        return Err(nom::Err::Error(make_error(i, ErrorKind::Tag)));
+    }
+
     Ok((
         i,
         Number {
-- 
2.43.0


From c6937d3f79993ba7d370bc5009ecd6b9e98d1498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:01 +0000
Subject: [PATCH 23/36] fix: iterate over all entries of the database

---
 src/metadata/database.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/metadata/database.rs b/src/metadata/database.rs
index 824cfdf..952efac 100644
--- a/src/metadata/database.rs
+++ b/src/metadata/database.rs
@@ -248,6 +248,6 @@ impl Database {
 
     /// Iterator over all `Metadata` entries in this database.
     pub fn iter(&self) -> impl Iterator<Item = &Metadata> {
-        self.by_id.values().map(AsRef::as_ref)
+        self.by_code.values().flatten().map(AsRef::as_ref)
     }
 }
-- 
2.43.0


From 76512789ce86123e02d98c409ef69003cb028ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:08 +0000
Subject: [PATCH 24/36] fix: ignore nested elements without recursion

---
 src/metadata/loader.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/metadata/loader.rs b/src/metadata/loader.rs
index ed1e7fd..40572d0 100644
--- a/src/metadata/loader.rs
+++ b/src/metadata/loader.rs
@@ -569,17 +569,17 @@ fn format<R: BufRead>(
 
 fn ignore<R: BufRead>(reader: &mut Reader<R>, name: &[u8]) -> Result<(), error::LoadMetadata> {
     let mut buffer = Vec::new();
+    let mut open = vec![name.to_vec()];
 
-    loop {
+    while let Some(name) = open.last() {
         match reader.read_event_into(&mut buffer)? {
             Event::Text(_) | Event::Comment(_) | Event::Empty(_) => (),
 
-            Event::Start(ref e) => {
-                let name = e.name().into_inner();
-                ignore(reader, name)?
-            }
+            Event::Start(ref e) => open.push(e.name().into_inner().to_vec()),
 
-            Event::End(ref e) if e.name().into_inner() == name => return Ok(()),
+            Event::End(ref e) if e.name().into_inner() == name => {
+                open.pop();
+            }
 
             Event::End(ref e) => {
                 return Err(error::Metadata::MismatchedTag(
@@ -599,6 +599,8 @@ fn ignore<R: BufRead>(reader: &mut Reader<R>, name: &[u8]) -> Result<(), error::
             }
         }
     }
+
+    Ok(())
 }
 
 fn text<R: BufRead>(reader: &mut Reader<R>, name: &[u8]) -> Result<String, error::LoadMetadata> {
-- 
2.43.0


From 16069932ec06410adfc2a8cfe4a5aa2b8e5ec1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:04 +0000
Subject: [PATCH 25/36] fix: read past percent-encoded parameters of tel: links

---
 src/parser/rfc3966.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/rfc3966.rs b/src/parser/rfc3966.rs
index 85f9cf8..a474f14 100644
--- a/src/parser/rfc3966.rs
+++ b/src/parser/rfc3966.rs
@@ -106,7 +106,7 @@ fn pname(c: char) -> bool {
 }
 
 fn pchar(c: char) -> bool {
-    parameter_unreserved(c) || unreserved(c)
+    parameter_unreserved(c) || unreserved(c) || c == '%'
 }
 
 fn number(c: char) -> bool {
-- 
2.43.0


From 51e94e5381b36a090de8b9b55102a94ad431e90b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:42 +0000
Subject: [PATCH 26/36] fix: accept parameters without a value in tel: links

---
 src/parser/rfc3966.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/parser/rfc3966.rs b/src/parser/rfc3966.rs
index a474f14..54a182a 100644
--- a/src/parser/rfc3966.rs
+++ b/src/parser/rfc3966.rs
@@ -86,11 +86,22 @@ fn parameter(i: &str) -> IResult<&str, (&str, &str)> {
     parse! { i =>
         char(';');
         let key = take_while(pname);
-        char('=');
-        let value = take_while(pchar);
+        let value = opt(value);
     };
 
-    Ok((i, (key, value)))
+    // A parameter may lack a value, but `;123` is an extension.
+    if value.is_none() && !key.starts_with(char::is_alphabetic) {
+        return Err(nom::Err::Error(make_error(i, ErrorKind::Tag)));
+    }
+
+    Ok((i, (key, value.unwrap_or(""))))
+}
+
+fn value(i: &str) -> IResult<&str, &str> {
+    parse! { i =>
+        char('=');
+        take_while(pchar)
+    }
 }
 
 fn check(i: &str) -> IResult<&str, ()> {
-- 
2.43.0


From cd250196c918805c9d2d473d1566319e5b4d13bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:28 +0000
Subject: [PATCH 27/36] fix: tell parameters of tel: links in any case

---
 src/parser/rfc3966.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/parser/rfc3966.rs b/src/parser/rfc3966.rs
index 54a182a..16efbbb 100644
--- a/src/parser/rfc3966.rs
+++ b/src/parser/rfc3966.rs
@@ -52,15 +52,15 @@ pub fn phone_number(i: &str) -> IResult<&str, Number<'_>> {
                 .or_else(|| {
                     params
                         .as_ref()
-                        .and_then(|m| m.get("phone-context"))
-                        .map(|&s| s.strip_prefix('+').unwrap_or(s))
+                        .and_then(|m| get(m, "phone-context"))
+                        .map(|s| s.strip_prefix('+').unwrap_or(s))
                 })
                 .map(|cs| cs.into()),
 
             extension: params
                 .as_ref()
-                .and_then(|m| m.get("ext"))
-                .map(|&cs| cs.into()),
+                .and_then(|m| get(m, "ext"))
+                .map(|cs| cs.into()),
 
             ..Default::default()
         },
@@ -74,6 +74,14 @@ fn prefix(i: &str) -> IResult<&str, &str> {
     }
 }
 
+/// Look up a parameter, in whatever case it is written.
+fn get<'a>(params: &FnvHashMap<&str, &'a str>, name: &str) -> Option<&'a str> {
+    params
+        .iter()
+        .find(|(key, _)| key.eq_ignore_ascii_case(name))
+        .map(|(_, value)| *value)
+}
+
 fn parameters(i: &str) -> IResult<&str, FnvHashMap<&str, &str>> {
     parse! { i =>
         let params = many1(parameter);
-- 
2.43.0


From af0cc3da89d382d49df978c1e66775420ac1ea7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:22 +0000
Subject: [PATCH 28/36] fix: report numbers too short after the international
 prefix as such

---
 src/parser/helper.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/helper.rs b/src/parser/helper.rs
index 384903c..399b19a 100644
--- a/src/parser/helper.rs
+++ b/src/parser/helper.rs
@@ -155,7 +155,7 @@ pub fn country_code<'a>(
         // from the number already.
         country::Source::Plus | country::Source::Idd | country::Source::Number => {
             if number.national.len() <= consts::MIN_LENGTH_FOR_NSN {
-                return Err(error::Parse::TooShortNsn);
+                return Err(error::Parse::TooShortAfterIdd);
             }
 
             // If the prefix was already extracted, check it is valid.
-- 
2.43.0


From 45b97bf4c2698ec01b19921c14dfd5e375ef55cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:02 +0000
Subject: [PATCH 29/36] fix: read national numbers of nothing but zeros

---
 src/national_number.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/national_number.rs b/src/national_number.rs
index 65baf9c..f5b4937 100644
--- a/src/national_number.rs
+++ b/src/national_number.rs
@@ -25,7 +25,9 @@ impl FromStr for NationalNumber {
     type Err = crate::error::Parse;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
+        // The last digit is part of the value even if it is a zero.
         let zeros = s.chars().take_while(|&c| c == '0').count();
+        let zeros = zeros.min(s.len().saturating_sub(1));
         let value = s[zeros..].parse::<u64>()?;
         let zeros = u8::try_from(zeros).or(Err(crate::error::Parse::TooLong))?;
 
-- 
2.43.0


From 71b1710dfe86e78457fa024dab5903d86e651565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:21 +0000
Subject: [PATCH 30/36] fix: resolve references in the attributes of metadata
 documents

---
 src/metadata/loader.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/metadata/loader.rs b/src/metadata/loader.rs
index 40572d0..0ede857 100644
--- a/src/metadata/loader.rs
+++ b/src/metadata/loader.rs
@@ -17,6 +17,7 @@ use quick_xml::Reader;
 use quick_xml::events::attributes::Attribute;
 use quick_xml::events::{self, Event};
 use serde_derive::{Deserialize, Serialize};
+use std::borrow::Cow;
 use std::io::BufRead;
 use std::str;
 
@@ -88,6 +89,11 @@ pub struct Descriptor {
     pub example: Option<String>,
 }
 
+/// The value of an attribute, with its references resolved.
+fn unescape(value: &[u8]) -> Result<Cow<'_, str>, error::LoadMetadata> {
+    Ok(quick_xml::escape::unescape(str::from_utf8(value)?).map_err(quick_xml::Error::from)?)
+}
+
 /// Load XML metadata from the given reader.
 pub fn load<R: BufRead>(reader: R) -> Result<Vec<Metadata>, error::LoadMetadata> {
     metadata(&mut Reader::from_reader(reader))
@@ -177,7 +183,7 @@ fn territory<R: BufRead>(
     for attr in e.attributes() {
         let Attribute { key, value } = attr.map_err(quick_xml::Error::InvalidAttr)?;
 
-        match (str::from_utf8(key.into_inner())?, str::from_utf8(&value)?) {
+        match (str::from_utf8(key.into_inner())?, &*unescape(&value)?) {
             ("id", value) => meta.id = Some(value.into()),
 
             ("countryCode", value) => meta.country_code = Some(value.parse()?),
@@ -359,7 +365,7 @@ fn descriptor<R: BufRead>(
                         let Attribute { key, value } =
                             attr.map_err(quick_xml::Error::InvalidAttr)?;
 
-                        match (str::from_utf8(key.into_inner())?, str::from_utf8(&value)?) {
+                        match (str::from_utf8(key.into_inner())?, &*unescape(&value)?) {
                             ("national", value) => descriptor.possible_length = lengths(value)?,
 
                             ("localOnly", value) => {
@@ -480,7 +486,7 @@ fn format<R: BufRead>(
     for attr in e.attributes() {
         let Attribute { key, value } = attr.map_err(quick_xml::Error::InvalidAttr)?;
 
-        match (str::from_utf8(key.into_inner())?, str::from_utf8(&value)?) {
+        match (str::from_utf8(key.into_inner())?, &*unescape(&value)?) {
             ("pattern", value) => format.pattern = Some(value.into()),
 
             ("nationalPrefixFormattingRule", value) => {
-- 
2.43.0


From d7c7b9b0d20742551fd9afcb14208614ec5175cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:17 +0000
Subject: [PATCH 31/36] fix: read a number behind letters a to f without a
 space

---
 src/parser/rfc3966.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/parser/rfc3966.rs b/src/parser/rfc3966.rs
index 16efbbb..7bd88bd 100644
--- a/src/parser/rfc3966.rs
+++ b/src/parser/rfc3966.rs
@@ -38,6 +38,15 @@ pub fn phone_number(i: &str) -> IResult<&str, Number<'_>> {
         let params = opt(parameters);
     };
 
+    // What stands before the first digit is text in front of a number rather than
+    // a part of it, as in `c.650-253-0000`.
+    if !national
+        .trim_start_matches(separator)
+        .starts_with(|c: char| c.is_ascii_digit())
+    {
+        return Err(nom::Err::Error(make_error(i, ErrorKind::Tag)));
+    }
+
     // What follows the `;` may be an extension instead, as in `253-0000;123`.
     if params.is_none() && consts::EXTN_PATTERN.find(i).is_some_and(|m| m.start() == 0) {
         return Err(nom::Err::Error(make_error(i, ErrorKind::Tag)));
-- 
2.43.0


From 55f392d382d8c017b2d665649b05032f050bfea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:25 +0000
Subject: [PATCH 32/36] fix: read a local number with a domain as its
 phone-context

---
 src/parser/rfc3966.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser/rfc3966.rs b/src/parser/rfc3966.rs
index 7bd88bd..0eb607d 100644
--- a/src/parser/rfc3966.rs
+++ b/src/parser/rfc3966.rs
@@ -62,6 +62,8 @@ pub fn phone_number(i: &str) -> IResult<&str, Number<'_>> {
                     params
                         .as_ref()
                         .and_then(|m| get(m, "phone-context"))
+                        // A domain does not add anything to the number.
+                        .filter(|s| s.starts_with('+') || !s.contains(char::is_alphabetic))
                         .map(|s| s.strip_prefix('+').unwrap_or(s))
                 })
                 .map(|cs| cs.into()),
-- 
2.43.0


From a5fde02dd8da41790e9a4f424f1f3902d8bcb0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:59 +0000
Subject: [PATCH 33/36] fix: keep letters and digits that follow a group in a
 format

A format such as $1x$2 or a rule such as $NP$FG5 lost the digits of the
group, for the regex crate reads the x or the 5 as part of the group's name.
libphonenumber reads a single digit.
---
 src/consts.rs    |  3 +++
 src/formatter.rs | 10 ++++++++--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/consts.rs b/src/consts.rs
index db5f69e..c5f8b0e 100644
--- a/src/consts.rs
+++ b/src/consts.rs
@@ -374,6 +374,9 @@ pub static NON_DIGITS: Lazy<Regex> = Lazy::new(|| Regex::new(r"(\D+)").unwrap())
 /// matched.
 pub static FIRST_GROUP: Lazy<Regex> = Lazy::new(|| Regex::new(r"(\$\d)").unwrap());
 
+/// A reference to a group in a format.
+pub static GROUP: Lazy<Regex> = Lazy::new(|| Regex::new(r"\$(\d)").unwrap());
+
 pub const NP: &str = "$NP";
 pub const FG: &str = "$FG";
 pub const CC: &str = "$CC";
diff --git a/src/formatter.rs b/src/formatter.rs
index f9cb2f3..6c3ad82 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -240,7 +240,7 @@ fn replace(
         .pattern()
         .replace(
             national,
-            &*if let Some(transform) = transform {
+            &*delimited(if let Some(transform) = transform {
                 // Without a group there is nothing the rule could apply to.
                 let first = consts::FIRST_GROUP
                     .captures(formatter.format())
@@ -253,11 +253,17 @@ fn replace(
                 consts::FIRST_GROUP.replace(formatter.format(), &*format)
             } else {
                 Cow::Borrowed(formatter.format())
-            },
+            }),
         )
         .into()
 }
 
+/// Delimit the references to groups, so that a letter or digit behind one is not
+/// taken for a part of the name of the group.
+fn delimited(template: Cow<'_, str>) -> String {
+    consts::GROUP.replace_all(&template, "$${$1}").into()
+}
+
 #[cfg(test)]
 mod test {
     use crate::country;
-- 
2.43.0


From 68b25c318bf8f04e7551f9c6a7e2abba10879622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:26:57 +0000
Subject: [PATCH 34/36] fix: match the patterns of formats against the whole
 number

A format whose pattern has alternatives or lazy repetitions, of which a
shorter one is preferred, was not used for numbers its pattern matches as a
whole. The patterns of descriptors are already anchored.
---
 src/metadata/database.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/metadata/database.rs b/src/metadata/database.rs
index 952efac..86eda42 100644
--- a/src/metadata/database.rs
+++ b/src/metadata/database.rs
@@ -66,8 +66,8 @@ impl Database {
             Ok(RegexBuilder::new(&value).ignore_whitespace(true).build()?)
         };
 
-        // A descriptor describes whole numbers, so its pattern has to match all of
-        // the national number and not just the beginning of it.
+        // Descriptors and formats are for whole numbers, so their patterns have to match
+        // all of the national number and not just the beginning of it.
         let anchored = |value: String| regex(format!("^(?:{value})$"));
 
         let descriptor =
@@ -99,7 +99,7 @@ impl Database {
                             name: "pattern".into(),
                         })
                     })
-                    .and_then(regex)?,
+                    .and_then(anchored)?,
 
                 format: format.format.ok_or_else(|| {
                     error::LoadMetadata::from(error::Metadata::MissingValue {
-- 
2.43.0


From eefa6d18c97c367f1e8531ac8b3ee120c2c05b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:10 +0000
Subject: [PATCH 35/36] fix: keep digits that follow a group in a transform
 rule

As in formats, a rule such as $13 was read as a reference to group 13 and
the digits of the group were lost.
---
 src/formatter.rs     | 2 +-
 src/parser/helper.rs | 6 +++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index 6c3ad82..c05068c 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -260,7 +260,7 @@ fn replace(
 
 /// Delimit the references to groups, so that a letter or digit behind one is not
 /// taken for a part of the name of the group.
-fn delimited(template: Cow<'_, str>) -> String {
+pub(crate) fn delimited(template: Cow<'_, str>) -> String {
     consts::GROUP.replace_all(&template, "$${$1}").into()
 }
 
diff --git a/src/parser/helper.rs b/src/parser/helper.rs
index 399b19a..69df795 100644
--- a/src/parser/helper.rs
+++ b/src/parser/helper.rs
@@ -15,6 +15,7 @@
 use crate::consts;
 use crate::country;
 use crate::error;
+use crate::formatter::delimited;
 use crate::metadata::{Database, Metadata};
 use crate::phone_number::Type;
 use crate::validator::{self, Validation};
@@ -288,7 +289,10 @@ pub fn international_prefix<'a>(idd: Option<&Regex>, mut number: Number<'a>) ->
 
 /// Strip national prefix and extract carrier.
 pub fn national_number<'a>(meta: &Metadata, mut number: Number<'a>) -> Number<'a> {
-    let transform = meta.national_prefix_transform_rule.as_ref();
+    let transform = meta
+        .national_prefix_transform_rule
+        .as_ref()
+        .map(|rule| delimited(rule.into()));
     let parsing = if let Some(re) = meta.national_prefix_for_parsing.as_ref() {
         re
     } else {
-- 
2.43.0


From f5ca5a38218486adc05bdc831dfcc72440b80838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:58:28 +0000
Subject: [PATCH 36/36] fix: read documents with comments, CDATA and
 instructions anywhere

A metadata document was refused when a comment, a CDATA section or a
processing instruction stood within the text of an element, when there was an
instruction between elements, or a reference (as in the URLs of the official
metadata: ?a&amp;b) in an element that is of no interest.
---
 src/metadata/loader.rs | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/src/metadata/loader.rs b/src/metadata/loader.rs
index 0ede857..5b864fb 100644
--- a/src/metadata/loader.rs
+++ b/src/metadata/loader.rs
@@ -105,7 +105,11 @@ fn metadata<R: BufRead>(reader: &mut Reader<R>) -> Result<Vec<Metadata>, error::
 
     loop {
         match reader.read_event_into(&mut buffer)? {
-            Event::Text(_) | Event::Comment(_) | Event::DocType(_) | Event::Decl(_) => (),
+            Event::Text(_)
+            | Event::Comment(_)
+            | Event::DocType(_)
+            | Event::Decl(_)
+            | Event::PI(_) => (),
 
             Event::Start(ref e) => match e.name().into_inner() {
                 b"phoneNumberMetadata" => continue,
@@ -143,7 +147,7 @@ fn territories<R: BufRead>(reader: &mut Reader<R>) -> Result<Vec<Metadata>, erro
 
     loop {
         match reader.read_event_into(&mut buffer)? {
-            Event::Text(_) | Event::Comment(_) => (),
+            Event::Text(_) | Event::Comment(_) | Event::PI(_) => (),
 
             Event::Start(ref e) => match e.name().into_inner() {
                 b"territory" => result.push(territory(reader, e)?),
@@ -239,7 +243,7 @@ fn territory<R: BufRead>(
 
     loop {
         match reader.read_event_into(&mut buffer)? {
-            Event::Text(_) | Event::Comment(_) => (),
+            Event::Text(_) | Event::Comment(_) | Event::PI(_) => (),
 
             Event::Start(ref e) => match e.name().into_inner() {
                 name @ b"references" | name @ b"areaCodeOptional" => ignore(reader, name)?,
@@ -341,7 +345,7 @@ fn descriptor<R: BufRead>(
 
     loop {
         match reader.read_event_into(&mut buffer)? {
-            Event::Text(_) | Event::Comment(_) => (),
+            Event::Text(_) | Event::Comment(_) | Event::PI(_) => (),
 
             Event::Start(ref e) => match e.name().into_inner() {
                 name @ b"nationalNumberPattern" => {
@@ -426,7 +430,7 @@ fn formats<R: BufRead>(
 
     loop {
         match reader.read_event_into(&mut buffer)? {
-            Event::Text(_) | Event::Comment(_) => (),
+            Event::Text(_) | Event::Comment(_) | Event::PI(_) => (),
 
             Event::Start(ref e) => match e.name().into_inner() {
                 name @ b"numberFormat" => {
@@ -512,7 +516,7 @@ fn format<R: BufRead>(
 
     loop {
         match reader.read_event_into(&mut buffer)? {
-            Event::Text(_) | Event::Comment(_) => (),
+            Event::Text(_) | Event::Comment(_) | Event::PI(_) => (),
 
             Event::Start(ref e) => match e.name().into_inner() {
                 name @ b"leadingDigits" => format.leading_digits.push(text(reader, name)?),
@@ -579,8 +583,6 @@ fn ignore<R: BufRead>(reader: &mut Reader<R>, name: &[u8]) -> Result<(), error::
 
     while let Some(name) = open.last() {
         match reader.read_event_into(&mut buffer)? {
-            Event::Text(_) | Event::Comment(_) | Event::Empty(_) => (),
-
             Event::Start(ref e) => open.push(e.name().into_inner().to_vec()),
 
             Event::End(ref e) if e.name().into_inner() == name => {
@@ -596,13 +598,8 @@ fn ignore<R: BufRead>(reader: &mut Reader<R>, name: &[u8]) -> Result<(), error::
 
             Event::Eof => return Err(error::Metadata::UnexpectedEof.into()),
 
-            event => {
-                return Err(error::Metadata::UnhandledEvent {
-                    phase: "ignore".into(),
-                    event: format!("{:?}", event),
-                }
-                .into());
-            }
+            // Whatever else is in there is not of interest either.
+            _ => (),
         }
     }
 
@@ -617,6 +614,10 @@ fn text<R: BufRead>(reader: &mut Reader<R>, name: &[u8]) -> Result<String, error
         match reader.read_event_into(&mut buffer)? {
             Event::Text(ref e) => result.push_str(str::from_utf8(e)?),
 
+            Event::CData(ref e) => result.push_str(str::from_utf8(e)?),
+
+            Event::Comment(_) | Event::PI(_) => (),
+
             Event::End(ref e) if e.name().into_inner() == name => return Ok(result),
 
             Event::End(ref e) => {
-- 
2.43.0

