From 994d4fb246a6833ad0be0118be03eb749dc96aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:51 +0000
Subject: [PATCH 1/9] fix: Span::overlaps_with no longer underflows on an empty
 span at location 0

---
 src/span.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/span.rs b/src/span.rs
index 2549c71..b4affca 100644
--- a/src/span.rs
+++ b/src/span.rs
@@ -312,7 +312,7 @@ impl Span {
 			left.is_empty() && (right.end == left.start || right.start == left.start)
 		}
 		fn non_commutative_helper(left: Span, right: Span) -> bool {
-			left.contains(right.start) || left.contains(right.end - 1)
+			left.contains(right.start) || (!right.is_empty() && left.contains(right.end - 1))
 		}
 
 		if non_commutative_empty_check(self, other) || non_commutative_empty_check(other, self) {
-- 
2.43.0


From f25771da3c951a451264608ebe3c63829908eca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:51 +0000
Subject: [PATCH 2/9] fix: trailing commas no longer change how a chunk
 decomposes and classifies

---
 src/decompose/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/decompose/mod.rs b/src/decompose/mod.rs
index e127d8c..301e4e4 100644
--- a/src/decompose/mod.rs
+++ b/src/decompose/mod.rs
@@ -62,6 +62,8 @@ fn post_word(input: &str) -> bool {
 }
 
 fn decompose_single(input: &str) -> Vec<Span> {
+	// trailing commas belong to no word, and the recognizers expect a word to end at the end of the input.
+	let input = input.trim_end_matches(',');
 	let to_span = |slice| Span::from_embedded_slice(input.as_ptr(), slice);
 
 	if simple_cmevla_check(input) {
-- 
2.43.0


From c880278c8f7bdfc58518f0ccd4f58803bdb018f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:51 +0000
Subject: [PATCH 3/9] fix: the cmavo cu'u'u... is looked up in the cmavo table

---
 src/lex/selmaho/classify.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lex/selmaho/classify.rs b/src/lex/selmaho/classify.rs
index 3787602..b4049b6 100644
--- a/src/lex/selmaho/classify.rs
+++ b/src/lex/selmaho/classify.rs
@@ -55,7 +55,7 @@ impl Selmaho {
 	#[must_use]
 	#[allow(clippy::too_many_lines)] // giant match block
 	pub fn classify(word: &str) -> (Self, bool) {
-		let mut direct_cmavo_check_buf = [0u8; 16];
+		let mut direct_cmavo_check_buf = [0u8; 128]; // must be longer than the longest word checked below
 		let direct_cmavo_check = transform_for_direct_cmavo_check(word, &mut direct_cmavo_check_buf);
 
 		let mut is_experimental = false;
-- 
2.43.0


From 4d4b6b1e72b513a2e1ba152d789a1167869e40d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:35 +0000
Subject: [PATCH 4/9] fix: a missing-selmaho error is located at the offending
 token, not after it

---
 src/parse/cst/rules/selmaho.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/parse/cst/rules/selmaho.rs b/src/parse/cst/rules/selmaho.rs
index 116fdf0..7d3235a 100644
--- a/src/parse/cst/rules/selmaho.rs
+++ b/src/parse/cst/rules/selmaho.rs
@@ -17,12 +17,12 @@ pub(in crate::parse::cst::rules) trait SelmahoTypeRaw:
 pub(in crate::parse::cst::rules) fn selmaho_raw<T: SelmahoTypeRaw>(
 	input: &[Token],
 ) -> ParseResult<'_, T> {
-	let mut input = input.iter();
-	T::try_from(input.next().copied())
-		.map(|matched| (input.as_slice(), matched))
+	let mut rest = input.iter();
+	T::try_from(rest.next().copied())
+		.map(|matched| (rest.as_slice(), matched))
 		.map_err(|error| {
 			nom::Err::Error(WithLocation {
-				location: input.as_slice(),
+				location: input,
 				error,
 			})
 		})
-- 
2.43.0


From b6d143f6634376cf74f0872a723e9538c6512b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:37 +0000
Subject: [PATCH 5/9] fix: an empty zoi quote parses, and quote parts are only
 parsed from quote tokens

---
 src/parse/cst/rules/mod.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/parse/cst/rules/mod.rs b/src/parse/cst/rules/mod.rs
index 21db66e..3b567a4 100644
--- a/src/parse/cst/rules/mod.rs
+++ b/src/parse/cst/rules/mod.rs
@@ -6,7 +6,6 @@ use bumpalo::Bump as Arena;
 use macros::{Parse, TreeNode};
 
 use crate::lex::{Selmaho, Token};
-use crate::span::Span;
 
 pub mod connectives;
 mod helpers;
@@ -870,13 +869,14 @@ pub struct ZoSumti {
 pub struct ZoiSumti {
 	pub zoi: Zoi,
 	pub starting_delimiter: ZoiDelimiter,
-	pub text: ZoiText,
+	pub text: Option<ZoiText>, // absent in an empty quote
 	pub ending_delimiter: ZoiDelimiter,
 }
 
 #[derive(Debug, Parse)]
+#[parse(postcond = "|Self(token)| token.selmaho == Selmaho::ZoiDelimiter")]
 #[repr(transparent)]
-pub struct ZoiDelimiter(Span);
+pub struct ZoiDelimiter(Token);
 
 impl TreeNode for ZoiDelimiter {
 	fn name(&self) -> &'static str {
@@ -888,18 +888,19 @@ impl TreeNode for ZoiDelimiter {
 	}
 
 	fn start_location(&self) -> Option<crate::span::Location> {
-		Some(self.0.start)
+		Some(self.0.span.start)
 	}
 
 	fn end_location(&self) -> Option<crate::span::Location> {
-		Some(self.0.end)
+		Some(self.0.span.end)
 	}
 
 	fn for_each_child<'a>(&'a self, _: &mut dyn FnMut(&'a dyn TreeNode)) {}
 }
 
 #[derive(Debug, Parse)]
-pub struct ZoiText(Span);
+#[parse(postcond = "|Self(token)| token.selmaho == Selmaho::AnyText")]
+pub struct ZoiText(Token);
 
 impl TreeNode for ZoiText {
 	fn name(&self) -> &'static str {
@@ -911,11 +912,11 @@ impl TreeNode for ZoiText {
 	}
 
 	fn start_location(&self) -> Option<crate::span::Location> {
-		Some(self.0.start)
+		Some(self.0.span.start)
 	}
 
 	fn end_location(&self) -> Option<crate::span::Location> {
-		Some(self.0.end)
+		Some(self.0.span.end)
 	}
 
 	fn for_each_child<'a>(&'a self, _: &mut dyn FnMut(&'a dyn TreeNode)) {}
-- 
2.43.0


From 4f84adb5a44cc296d22b2c30f1b805af9e76ddf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:56 +0000
Subject: [PATCH 6/9] fix: Decomposer::size_hint no longer counts a remaining
 chunk that may hold no word

---
 src/decompose/mod.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/decompose/mod.rs b/src/decompose/mod.rs
index 301e4e4..f6a2a7d 100644
--- a/src/decompose/mod.rs
+++ b/src/decompose/mod.rs
@@ -142,12 +142,8 @@ impl<'input> Iterator for Decomposer<'input> {
 	}
 
 	fn size_hint(&self) -> (usize, Option<usize>) {
-		let lower = self
-			.current_chunk
-			.as_slice()
-			.len()
-			.saturating_add(self.chunks.size_hint().0);
-		(lower, None)
+		// a remaining chunk may contain no words, so it doesn't contribute to the lower bound.
+		(self.current_chunk.as_slice().len(), None)
 	}
 }
 
-- 
2.43.0


From eba4c359eee50c801d693195b7d0aa988eca834b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:19 +0000
Subject: [PATCH 7/9] hook: expose the morphology recognizers under
 cfg(sneturfahi_verif)

---
 src/lib.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 3a61cf4..96000b6 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -41,3 +41,11 @@ pub use parse::{Arena, Cst};
 
 pub mod span;
 pub use span::Span;
+
+/// Access to the internal morphology recognizers for the verification machinery.
+#[cfg(sneturfahi_verif)]
+#[doc(hidden)]
+#[allow(missing_docs)]
+pub mod verif_hooks {
+	pub use crate::rules::*;
+}
-- 
2.43.0


From 5d6e0f9bcbcb255d7d03bd302db27d1d93b10dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:44 +0000
Subject: [PATCH 8/9] fix: the cmavo vi'ei'e is looked up without a stray
 leading space

---
 src/lex/selmaho/classify.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lex/selmaho/classify.rs b/src/lex/selmaho/classify.rs
index b4049b6..f0a023c 100644
--- a/src/lex/selmaho/classify.rs
+++ b/src/lex/selmaho/classify.rs
@@ -251,7 +251,7 @@ impl Selmaho {
 				| "se'i'i" | "sei'a" | "sei'u'e" | "si'ei" | "si'i'ai" | "so'au" | "soi'ai" | "soi'au"
 				| "su'ai" | "su'au" | "su'o'o" | "su'oi" | "sy'au" | "tau'u" | "va'ei'a" | "vau'au'o"
 				| "vo'ei'a" | "vu'ai" | "xe'a" | "xe'e" | "xei" | "xi'i'ei" | "xo'au" | "xo'e"
-				| "xy'au" | "zau'u" | "ze'au" | "zy'ei" | " vi'ei'e" => {
+				| "xy'au" | "zau'u" | "ze'au" | "zy'ei" | "vi'ei'e" => {
 					experimental!(Self::Pa)
 				}
 				"pe'e" => Self::Pehe,
-- 
2.43.0


From 2a9b22da94cbe10c8d2a1a7c09002e345949591e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:41 +0000
Subject: [PATCH 9/9] fix: a word of only y is Y whatever its length

---
 src/lex/selmaho/classify.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lex/selmaho/classify.rs b/src/lex/selmaho/classify.rs
index f0a023c..1521410 100644
--- a/src/lex/selmaho/classify.rs
+++ b/src/lex/selmaho/classify.rs
@@ -475,6 +475,9 @@ impl Selmaho {
 				"la'oi" | "ra'oi" | "zo'oi" => Self::Zohoi,
 				_ => Self::classify_generally(word),
 			}
+		} else if word.chars().all(|ch| matches!(ch, 'y' | ',')) {
+			// too long for the buffer, but hesitation may be arbitrarily long.
+			Self::Y
 		} else {
 			Self::classify_generally(word)
 		};
-- 
2.43.0

