From 5b2c12adf3ea48bce2bdd106e573f345ca8c828c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:21 +0000
Subject: [PATCH 1/9] fix: bound the nesting of message/rfc822 body structures

Each nested message restarted the recursion budget, so that a peer could
overflow the stack with a deeply nested BODY/BODYSTRUCTURE response.
Nested messages now consume the budget of the enclosing body, one unit
per level like nested multiparts.
---
 imap-codec/src/body.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/imap-codec/src/body.rs b/imap-codec/src/body.rs
index b78f51c..666cf53 100644
--- a/imap-codec/src/body.rs
+++ b/imap-codec/src/body.rs
@@ -70,7 +70,7 @@ fn body_type_1part_limited(
         }));
     }
 
-    let body_type_msg = |input| body_type_msg_limited(input, 8);
+    let body_type_msg = |input| body_type_msg_limited(input, remaining_recursions);
 
     let mut parser = tuple((
         alt((body_type_msg, body_type_text, body_type_basic)),
@@ -127,7 +127,7 @@ fn body_type_msg_limited(
         }));
     }
 
-    let body = |input| body_limited(input, remaining_recursions.saturating_sub(1));
+    let body = |input| body_limited(input, remaining_recursions);
 
     let mut parser = tuple((
         media_message,
-- 
2.43.0


From a47aac35f5e1448ac017c5be3ea0f81605ba2c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:21 +0000
Subject: [PATCH 2/9] fix: encode the MODSEQ message data item with parentheses

RFC 7162: fetch-mod-resp = "MODSEQ" SP "(" permsg-modsequence ")". The
crate's own decoder rejected what the encoder produced.
---
 imap-codec/src/codec/encode.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/imap-codec/src/codec/encode.rs b/imap-codec/src/codec/encode.rs
index 6433227..edbaddb 100644
--- a/imap-codec/src/codec/encode.rs
+++ b/imap-codec/src/codec/encode.rs
@@ -1777,7 +1777,7 @@ impl EncodeIntoContext for MessageDataItem<'_> {
                 size.encode_ctx(ctx)
             }
             #[cfg(feature = "ext_condstore_qresync")]
-            Self::ModSeq(value) => write!(ctx, "MODSEQ {value}"),
+            Self::ModSeq(value) => write!(ctx, "MODSEQ ({value})"),
         }
     }
 }
-- 
2.43.0


From 795c41937f8df360a683820984b039e539bc7c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:21 +0000
Subject: [PATCH 3/9] fix: keep the start of a Range<NonZeroU32> converted to a
 Sequence

---
 imap-types/src/sequence.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/imap-types/src/sequence.rs b/imap-types/src/sequence.rs
index 73d70b0..e25fcf2 100644
--- a/imap-types/src/sequence.rs
+++ b/imap-types/src/sequence.rs
@@ -594,7 +594,7 @@ impl TryFrom<Range<NonZeroU32>> for Sequence {
 
     fn try_from(range: Range<NonZeroU32>) -> Result<Self, Self::Error> {
         Ok(Self::Range(
-            SeqOrUid::from(MIN),
+            SeqOrUid::from(range.start),
             SeqOrUid::try_from(range.end.get().saturating_sub(1))?,
         ))
     }
-- 
2.43.0


From 977ebcf9d43a85342c0334905e4994e2b3c82040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:41 +0000
Subject: [PATCH 4/9] fix: recognize SCRAM-SHA3-512(-PLUS) and NAMESPACE

The known variants were encoded, but decoded as the "other" variant, which
is guaranteed to never represent a known value.
---
 imap-types/src/auth.rs     | 2 ++
 imap-types/src/response.rs | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/imap-types/src/auth.rs b/imap-types/src/auth.rs
index 3a7ed8a..1847b95 100644
--- a/imap-types/src/auth.rs
+++ b/imap-types/src/auth.rs
@@ -157,6 +157,8 @@ impl<'a> From<Atom<'a>> for AuthMechanism<'a> {
             "SCRAM-SHA-1-PLUS" => Self::ScramSha1Plus,
             "SCRAM-SHA-256" => Self::ScramSha256,
             "SCRAM-SHA-256-PLUS" => Self::ScramSha256Plus,
+            "SCRAM-SHA3-512" => Self::ScramSha3_512,
+            "SCRAM-SHA3-512-PLUS" => Self::ScramSha3_512Plus,
             _ => Self::Other(AuthMechanismOther(atom)),
         }
     }
diff --git a/imap-types/src/response.rs b/imap-types/src/response.rs
index 9517dd4..e36514b 100644
--- a/imap-types/src/response.rs
+++ b/imap-types/src/response.rs
@@ -1231,6 +1231,8 @@ impl<'a> From<Atom<'a>> for Capability<'a> {
             #[cfg(feature = "ext_condstore_qresync")]
             "qresync" => Self::QResync,
             "uidplus" => Self::UidPlus,
+            #[cfg(feature = "ext_namespace")]
+            "namespace" => Self::Namespace,
             #[cfg(feature = "ext_utf8")]
             "utf8=accept" => Self::Utf8(Utf8Kind::Accept),
             #[cfg(feature = "ext_utf8")]
-- 
2.43.0


From 91b23a5fc8f584f621d5cbda87e7fa0bab9601d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:41 +0000
Subject: [PATCH 5/9] fix: parse QUOTA=RES-<resource> by its prefix, and keep
 the spelling of the resource

`QUOTA=XRES-STORAGE` was taken for `QUOTA=RES-STORAGE`, and the name of an
unknown resource was changed to lowercase.
---
 imap-types/src/response.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/imap-types/src/response.rs b/imap-types/src/response.rs
index e36514b..2fb5d94 100644
--- a/imap-types/src/response.rs
+++ b/imap-types/src/response.rs
@@ -1254,12 +1254,12 @@ impl<'a> From<Atom<'a>> for Capability<'a> {
                             }
                         }
                         "quota" => {
-                            if let Some((_, right)) =
-                                right.as_ref().to_ascii_lowercase().split_once("res-")
-                            {
-                                // TODO(efficiency)
-                                if let Ok(resource) = Resource::try_from(right.to_owned()) {
-                                    return Self::QuotaRes(resource);
+                            if let Some((prefix, right)) = right.split_at_checked(4) {
+                                if prefix.eq_ignore_ascii_case("res-") {
+                                    // TODO(efficiency)
+                                    if let Ok(resource) = Resource::try_from(right.to_owned()) {
+                                        return Self::QuotaRes(resource);
+                                    }
                                 }
                             }
                         }
-- 
2.43.0


From 4c4c04bb5df5136eeea85201988ad9aecbae7922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:52 +0000
Subject: [PATCH 6/9] fix: keep `*` and 4294967295 apart in sequence sets

Normalizing a sequence set (which the encoder does by default) turned
4294967295 into `*` (and `1:4294967294` into `1:*`), i.e., the message
addressed other messages than the ones asked for.
---
 imap-types/src/sequence.rs | 87 +++++++++++---------------------------
 1 file changed, 25 insertions(+), 62 deletions(-)

diff --git a/imap-types/src/sequence.rs b/imap-types/src/sequence.rs
index e25fcf2..8c99ba6 100644
--- a/imap-types/src/sequence.rs
+++ b/imap-types/src/sequence.rs
@@ -1,6 +1,6 @@
 use std::{
     cmp::{Ordering, max},
-    collections::{HashSet, VecDeque},
+    collections::VecDeque,
     fmt::Debug,
     iter::Rev,
     mem,
@@ -37,71 +37,38 @@ pub struct SequenceSet(pub Vec1<Sequence>);
 
 impl SequenceSet {
     pub fn normalize(&mut self) -> &mut Self {
-        let mut singles = HashSet::with_capacity(self.0.0.len());
-        let mut ranges = Vec::with_capacity(self.0.0.len());
-
-        // First, normalize all sequences
-        for seq in &mut self.0.0 {
-            match seq.normalize() {
-                Sequence::Single(id) => {
-                    singles.insert(id.to_non_zero_u32());
-                    // Push a 1-lenth range so they can merge nicely
-                    // later on
-                    ranges.push(id.to_non_zero_u32()..id.to_non_zero_u32().saturating_add(1));
-                }
-                Sequence::Range(a, b) => {
-                    ranges.push(a.to_non_zero_u32()..b.to_non_zero_u32().saturating_add(1));
-                }
-            }
-        }
+        // `*` is not a number: it must stay distinct from all of them, and compares greater.
+        const ASTERISK: u64 = u32::MAX as u64 + 1;
 
-        // TODO: Improve this loop, for eg. with a .retain().
-        for single in singles.clone() {
-            for range in &mut ranges {
-                if single.get() == range.start.get().max(2) - 1 {
-                    singles.remove(&single);
-                    range.start = single;
-                } else if single.get() == range.end.get() {
-                    singles.remove(&single);
-                    range.end = single;
-                } else if range.contains(&single) {
-                    singles.remove(&single);
-                }
+        fn to_position(value: SeqOrUid) -> u64 {
+            match value {
+                SeqOrUid::Value(value) => u64::from(value.get()),
+                SeqOrUid::Asterisk => ASTERISK,
             }
         }
 
-        // Rebuild the inner sequence set with merged ranges
-        self.0.0.clear();
-        for range in merge_ranges(ranges) {
-            singles.retain(|single| !range.contains(single));
-
-            match (range.start, range.end) {
-                (a, b) if a == b || a.saturating_add(1) == b => {
-                    let a = NonZeroU32::new(a.get()).unwrap();
-                    self.0.0.push(Sequence::Single(a.into()));
-                }
-                (a, NonZeroU32::MAX) => {
-                    self.0.0.push(Sequence::Range(a.into(), SeqOrUid::Asterisk))
-                }
-                (a, b) => {
-                    let b = NonZeroU32::new(b.get().max(2) - 1).unwrap();
-                    self.0.0.push(Sequence::Range(a.into(), b.into()));
-                }
+        fn from_position(position: u64) -> SeqOrUid {
+            match u32::try_from(position).ok().and_then(NonZeroU32::new) {
+                Some(value) => SeqOrUid::Value(value),
+                None => SeqOrUid::Asterisk,
             }
         }
 
-        // Add remaining singles that don't belong to any range to the
-        // sequence set
-        for single in singles {
-            self.0.0.push(single.into());
-        }
-
-        // Sort the merged sequence set
-        self.0.0.sort_by_key(|seq| match seq {
-            Sequence::Single(a) => a.to_non_zero_u32(),
-            Sequence::Range(a, _) => a.to_non_zero_u32(),
+        // First, normalize all sequences, and turn them into (half-open) ranges
+        let ranges = self.0.0.iter_mut().map(|seq| match seq.normalize() {
+            Sequence::Single(id) => to_position(*id)..to_position(*id) + 1,
+            Sequence::Range(a, b) => to_position(*a)..to_position(*b) + 1,
         });
 
+        // Rebuild the inner sequence set with merged (and sorted) ranges
+        self.0.0 = merge_ranges(ranges.collect())
+            .into_iter()
+            .map(|range| match (range.start, range.end - 1) {
+                (a, b) if a == b => Sequence::Single(from_position(a)),
+                (a, b) => Sequence::Range(from_position(a), from_position(b)),
+            })
+            .collect();
+
         self
     }
 }
@@ -352,11 +319,7 @@ impl PartialOrd for SeqOrUid {
 
 impl From<NonZeroU32> for SeqOrUid {
     fn from(value: NonZeroU32) -> Self {
-        if value == NonZeroU32::MAX {
-            Self::Asterisk
-        } else {
-            Self::Value(value)
-        }
+        Self::Value(value)
     }
 }
 
-- 
2.43.0


From 68bf32ba07565f6faac6aa3d97bed38f2916e892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:43 +0000
Subject: [PATCH 7/9] fix: reject CR and LF in quoted UTF-8 strings

uQUOTED-CHAR extends QUOTED-CHAR, which excludes them. With `ext_utf8`
enabled, every quoted string containing them was accepted, so that the
parser and the (line based) framing disagreed about where a message ends.
---
 imap-codec/src/extensions/utf8.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/imap-codec/src/extensions/utf8.rs b/imap-codec/src/extensions/utf8.rs
index 604c804..c912b31 100644
--- a/imap-codec/src/extensions/utf8.rs
+++ b/imap-codec/src/extensions/utf8.rs
@@ -40,7 +40,7 @@ pub(crate) fn quoted_utf8(input: &[u8]) -> IMAPResult<&[u8], QuotedUtf8> {
         dquote,
         map_res(
             escaped(
-                take_while1(|c| !is_quoted_specials(c)),
+                take_while1(|c| !is_quoted_specials(c) && !matches!(c, b'\r' | b'\n')),
                 '\\',
                 one_of("\\\""),
             ),
-- 
2.43.0


From f5b35aace6bced73f874e444b59ef6b5c6aff2b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:10 +0000
Subject: [PATCH 8/9] fix: reject a leading plus sign in sequence numbers

The grammar has no sign in sequence numbers, but Rust's number parsing accepts one: "+1", and "+01" past the check for
leading zeros.
---
 imap-types/src/sequence.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/imap-types/src/sequence.rs b/imap-types/src/sequence.rs
index 8c99ba6..1778839 100644
--- a/imap-types/src/sequence.rs
+++ b/imap-types/src/sequence.rs
@@ -399,9 +399,9 @@ impl FromStr for SeqOrUid {
             Ok(SeqOrUid::Asterisk)
         } else {
             // This is to align parsing here with the IMAP grammar:
-            // Rust's `parse::<NonZeroU32>` function accepts numbers that start with 0.
-            // For example, 00001, is interpreted as 1. But this is not allowed in IMAP.
-            if value.starts_with('0') {
+            // Rust's `parse::<NonZeroU32>` function accepts numbers that start with 0 or +.
+            // For example, 00001 and +1 are interpreted as 1. But this is not allowed in IMAP.
+            if value.starts_with(['0', '+']) {
                 Err(ValidationError::new(ValidationErrorKind::Invalid))
             } else {
                 Ok(SeqOrUid::Value(NonZeroU32::from_str(value).map_err(
-- 
2.43.0


From 3bec54db9b973538d2ee59bb6cfbbfc690efbf6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:27 +0000
Subject: [PATCH 9/9] fix: reject empty ranges as sequences

`Sequence::try_from(5..5)` yielded `5:4`, which means 4 and 5.
---
 imap-types/src/sequence.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/imap-types/src/sequence.rs b/imap-types/src/sequence.rs
index 1778839..717d37b 100644
--- a/imap-types/src/sequence.rs
+++ b/imap-types/src/sequence.rs
@@ -495,6 +495,11 @@ macro_rules! impl_try_from_num_range {
             type Error = ValidationError;
 
             fn try_from(range: Range<$num>) -> Result<Self, Self::Error> {
+                // An empty range must not become, e.g., `5:4`: It would mean 4 and 5.
+                if range.is_empty() {
+                    return Err(ValidationError::new(ValidationErrorKind::Empty));
+                }
+
                 Ok(Self::Range(
                     SeqOrUid::try_from(range.start)?,
                     SeqOrUid::try_from(range.end.saturating_sub(1))?,
@@ -556,6 +561,11 @@ impl TryFrom<Range<NonZeroU32>> for Sequence {
     type Error = ValidationError;
 
     fn try_from(range: Range<NonZeroU32>) -> Result<Self, Self::Error> {
+        // An empty range must not become, e.g., `5:4`: It would mean 4 and 5.
+        if range.is_empty() {
+            return Err(ValidationError::new(ValidationErrorKind::Empty));
+        }
+
         Ok(Self::Range(
             SeqOrUid::from(range.start),
             SeqOrUid::try_from(range.end.get().saturating_sub(1))?,
-- 
2.43.0

