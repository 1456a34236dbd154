From d8e43209c2c762394431a7ebc6433586b6f35be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:43 +0000
Subject: [PATCH 1/8] fix: keep byte sets within the alphabet

ANY_BYTE (and mk_byte_set_not) had bits set beyond alphabet_size when it is
not a multiple of 32, so emptiness checks could see bytes that do not exist.
---
 src/ast.rs      |  6 +++++-
 src/simplify.rs | 10 +---------
 2 files changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/ast.rs b/src/ast.rs
index 6706098..22ab149 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -274,6 +274,10 @@ impl ExprSet {
     pub fn new(alphabet_size: usize) -> Self {
         let exprs = VecHashCons::new();
         let alphabet_words = (alphabet_size + 31) / 32;
+        let mut any_byte = vec![0; alphabet_words];
+        for b in 0..alphabet_size {
+            byteset_set(&mut any_byte, b);
+        }
         let mut r = ExprSet {
             exprs,
             alphabet_size,
@@ -290,7 +294,7 @@ impl ExprSet {
             (r.mk(Expr::EmptyString), ExprRef::EMPTY_STRING),
             (r.mk(Expr::NoMatch), ExprRef::NO_MATCH),
             (
-                r.mk(Expr::ByteSet(&vec![0xffffffff; alphabet_words])),
+                r.mk(Expr::ByteSet(&any_byte)),
                 ExprRef::ANY_BYTE,
             ),
             (
diff --git a/src/simplify.rs b/src/simplify.rs
index c09d1c4..7c5e8f4 100644
--- a/src/simplify.rs
+++ b/src/simplify.rs
@@ -294,15 +294,7 @@ impl ExprSet {
     }
 
     pub fn mk_byte_set_not(&mut self, x: ExprRef) -> ExprRef {
-        match self.get(x) {
-            Expr::Byte(b) => {
-                let mut r = vec![!0u32; self.alphabet_words];
-                byteset_clear(&mut r, b as usize);
-                self.mk_byte_set(&r)
-            }
-            Expr::ByteSet(bs) => self.mk_byte_set(&bs.iter().map(|v| !*v).collect::<Vec<_>>()),
-            _ => panic!(),
-        }
+        self.mk_byte_set_neg_or(&[x])
     }
 
     pub fn mk_byte_set_or(&mut self, args: &[ExprRef]) -> ExprRef {
-- 
2.43.0


From 8f130127f99b4a5c71730a067644a3b1260c5fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:46 +0000
Subject: [PATCH 2/8] fix: Prefixes(R) matches the empty string whenever R
 matches anything

The nullable flag was only set when R was known to be positive, so prefixes of
intersections and complements rejected the empty string.
---
 src/simplify.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/simplify.rs b/src/simplify.rs
index 7c5e8f4..4db8e94 100644
--- a/src/simplify.rs
+++ b/src/simplify.rs
@@ -2,6 +2,7 @@ use crate::ast::{
     byteset_clear, byteset_contains, byteset_intersection, byteset_set, byteset_union, Expr,
     ExprFlags, ExprRef, ExprSet, ExprTag,
 };
+use crate::relevance::RelevanceCache;
 
 impl ExprSet {
     pub(crate) fn pay(&mut self, cost: usize) {
@@ -49,14 +50,13 @@ impl ExprSet {
         } else {
             match self.get(e) {
                 Expr::Prefixes(_, _) => e,
-                _ => self.mk(Expr::Prefixes(
-                    if self.is_positive(e) {
-                        ExprFlags::POSITIVE_NULLABLE
-                    } else {
-                        ExprFlags::ZERO
-                    },
-                    e,
-                )),
+                _ => {
+                    // the empty string is a prefix iff there is anything to be a prefix of
+                    if !self.is_positive(e) && !RelevanceCache::new().is_non_empty(self, e) {
+                        return ExprRef::NO_MATCH;
+                    }
+                    self.mk(Expr::Prefixes(ExprFlags::POSITIVE_NULLABLE, e))
+                }
             }
         }
     }
-- 
2.43.0


From 997f13626186d4ae2e82d7602722cb806f1d208d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:48 +0000
Subject: [PATCH 3/8] fix: byte class 255 is not "unmapped" in ByteCompressor

With 256 classes the last one was taken for the sentinel and got a second
class (number 256), which made AlphabetInfo::from_exprset panic.
---
 src/bytecompress.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/bytecompress.rs b/src/bytecompress.rs
index 6942b8b..9a7c462 100644
--- a/src/bytecompress.rs
+++ b/src/bytecompress.rs
@@ -8,17 +8,17 @@ use crate::{
 pub struct ByteCompressor {
     pub mapping: Vec<u8>,
     pub alphabet_size: usize,
+    is_mapped: Vec<bool>,
     bytesets: Vec<Vec<u32>>,
     map_cache: HashMap<ExprRef, ExprRef>,
 }
 
-const INVALID_MAPPING: u8 = 0xff;
-
 impl ByteCompressor {
     pub fn new() -> Self {
         ByteCompressor {
             mapping: Vec::new(),
             alphabet_size: 0,
+            is_mapped: Vec::new(),
             bytesets: Vec::new(),
             map_cache: HashMap::new(),
         }
@@ -80,7 +80,8 @@ impl ByteCompressor {
     }
 
     pub fn compress(&mut self, exprset: &ExprSet, rx_list: &[ExprRef]) -> (ExprSet, Vec<ExprRef>) {
-        self.mapping = vec![INVALID_MAPPING; exprset.alphabet_size()];
+        self.mapping = vec![0; exprset.alphabet_size()];
+        self.is_mapped = vec![false; exprset.alphabet_size()];
 
         let mut todo = rx_list.to_vec();
         let mut visited = vec![false; exprset.len()];
@@ -93,9 +94,10 @@ impl ByteCompressor {
             match exprset.get(e) {
                 Expr::Byte(b) => {
                     assert!(
-                        self.mapping[b as usize] == INVALID_MAPPING,
+                        !self.is_mapped[b as usize],
                         "visiting the same byte the second time"
                     );
+                    self.is_mapped[b as usize] = true;
                     self.mapping[b as usize] = self.alphabet_size as u8;
                     self.alphabet_size += 1;
                 }
@@ -132,7 +134,7 @@ impl ByteCompressor {
     ) {
         let mut byte_mapping = HashMap::new();
         for b in 0..self.mapping.len() {
-            if self.mapping[b] == INVALID_MAPPING {
+            if !self.is_mapped[b] {
                 let mut v = alloc(self.bytesets.len());
                 for (idx, bs) in self.bytesets.iter().enumerate() {
                     if byteset_contains(bs, b) {
-- 
2.43.0


From 8a8b3122f0bfd5bfc242d72e42cf11fbf51e4207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:51 +0000
Subject: [PATCH 4/8] fix: json_quote() of a set with all control characters
 does not add " and \

These two are added separately, when they are in the set.
---
 src/regexbuilder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/regexbuilder.rs b/src/regexbuilder.rs
index 310d8e8..29a90d5 100644
--- a/src/regexbuilder.rs
+++ b/src/regexbuilder.rs
@@ -247,7 +247,7 @@ impl RegexBuilder {
         // byteset of all possible single-char quotes
         fn single_quote_byteset(include_nl: bool, options: &JsonQuoteOptions) -> Vec<u32> {
             let mut quoted_bs = byteset_256();
-            for c in b"\"\\bfrt" {
+            for c in b"bfrt" {
                 options.set_if_allowed(&mut quoted_bs, *c);
             }
             if include_nl {
-- 
2.43.0


From 469a10c62218b293703d1d4bd84810368ecf2e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:53 +0000
Subject: [PATCH 5/8] fix: allow the first vector in VecHashCons to be inserted
 with no push

start_insert() directly followed by finish_insert() was out of range of the
backing store.
---
 src/hashcons.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hashcons.rs b/src/hashcons.rs
index 8a9d9bb..a1fdef5 100644
--- a/src/hashcons.rs
+++ b/src/hashcons.rs
@@ -81,6 +81,7 @@ impl VecHashCons {
     pub fn start_insert(&mut self) {
         assert!(self.curr_elt.backing_end == 0);
         self.curr_elt.backing_end = self.curr_elt.backing_start;
+        self.ensure_size();
     }
 
     #[inline(always)]
-- 
2.43.0


From 61372c252e97c321fd5024d77f6f6eb96527d860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:48 +0000
Subject: [PATCH 6/8] fix: refuse a repetition with min > max instead of
 panicking

---
 src/regexbuilder.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/regexbuilder.rs b/src/regexbuilder.rs
index 29a90d5..2d4af88 100644
--- a/src/regexbuilder.rs
+++ b/src/regexbuilder.rs
@@ -483,6 +483,7 @@ impl RegexBuilder {
                     RegexAst::Literal(s) => self.exprset.mk_literal(s),
                     RegexAst::ByteLiteral(s) => self.exprset.mk_byte_literal(s),
                     RegexAst::Repeat(_, min, max) => {
+                        ensure!(min <= max, "invalid repeat range");
                         self.exprset.mk_repeat(new_args[0], *min, *max)
                     }
                     RegexAst::Prefixes(_) => self.exprset.mk_prefixes(new_args[0]),
-- 
2.43.0


From b19fa7d45c6c487433f1e0bf8d7156aeae072cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:18 +0000
Subject: [PATCH 7/8] fix: printing a byte set of a small alphabet must not
 read beyond the set

byteset_to_string asked about all 256 bytes, while a set of an alphabet of
less than 225 symbols has fewer than eight words, so printing it panicked.
---
 src/pp.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pp.rs b/src/pp.rs
index f9fe918..56aee72 100644
--- a/src/pp.rs
+++ b/src/pp.rs
@@ -277,7 +277,7 @@ pub fn byteset_to_string(s: &[u32]) -> String {
     let mut start = None;
     let mut first = true;
     for i in 0..=256 {
-        if i <= 0xff && byteset_contains(s, i) {
+        if i <= 0xff && i / 32 < s.len() && byteset_contains(s, i) {
             if start.is_none() {
                 start = Some(i);
             }
-- 
2.43.0


From a1903c8786099fb73c89326f4315c823705e64ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:18 +0000
Subject: [PATCH 8/8] fix: a sequence of symbols is not printed as a string of
 characters

With an alphabet mapping, two or more single symbols in a row were printed
as if their numbers were characters ("\0\u{1}" for s0 s1).
---
 src/pp.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pp.rs b/src/pp.rs
index 56aee72..4f2f85c 100644
--- a/src/pp.rs
+++ b/src/pp.rs
@@ -114,7 +114,8 @@ impl PrettyPrinter {
             }
 
             let mut bytes = vec![];
-            while i + bytes.len() < ids.len() {
+            // symbols are not characters
+            while !self.has_mapping && i + bytes.len() < ids.len() {
                 let e = exprset.get(ids[i + bytes.len()]);
                 match e {
                     Expr::Byte(b) => bytes.push(b),
-- 
2.43.0

