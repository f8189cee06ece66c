From 8d1442f226517ff51a31a881fe6633967faa3d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:00 +0000
Subject: [PATCH 1/6] sim: hooks for deterministic simulation, off unless --cfg
 derivre_sim

---
 src/deriv.rs        |  8 ++++++++
 src/hashcons.rs     |  4 ++++
 src/lib.rs          |  5 +++++
 src/nextbyte.rs     |  8 ++++++++
 src/regex.rs        | 27 +++++++++++++++++++++++++++
 src/regexbuilder.rs |  8 ++++++++
 src/relevance.rs    | 11 +++++++++++
 src/sim.rs          | 39 +++++++++++++++++++++++++++++++++++++++
 8 files changed, 110 insertions(+)
 create mode 100644 src/sim.rs

diff --git a/src/deriv.rs b/src/deriv.rs
index 748d1ae..ee9be58 100644
--- a/src/deriv.rs
+++ b/src/deriv.rs
@@ -111,3 +111,11 @@ impl DerivCache {
         self.state_table.len() * 8 * std::mem::size_of::<isize>()
     }
 }
+
+#[cfg(derivre_sim)]
+impl DerivCache {
+    pub fn sim_forget(&mut self, forget: crate::sim::Forget) {
+        self.state_table
+            .retain(|&(e, b), _| !forget(crate::sim::Memo::Deriv, e.as_u32(), b as u32));
+    }
+}
diff --git a/src/hashcons.rs b/src/hashcons.rs
index 8a9d9bb..7458efa 100644
--- a/src/hashcons.rs
+++ b/src/hashcons.rs
@@ -119,9 +119,13 @@ impl VecHashCons {
         let hasher = &self.hasher;
         let curr_backing = &self.backing[self.curr_elt.as_range()];
         let hash = hasher.hash_one(curr_backing);
+        #[cfg(derivre_sim)]
+        let hash = crate::sim::perturb_hash(hash);
         let get_slice =
             |x: &u32| -> &[u32] { &self.backing[self.elements[*x as usize].as_range()] };
         let hasher = |x: &u32| -> u64 { hasher.hash_one(get_slice(x)) };
+        #[cfg(derivre_sim)]
+        let hasher = |x: &u32| -> u64 { crate::sim::perturb_hash(hasher(x)) };
         let eq = |x: &u32| -> bool { get_slice(x) == curr_backing };
 
         match self.table.entry(hash, eq, hasher) {
diff --git a/src/lib.rs b/src/lib.rs
index b4f4ae9..11e9ae8 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,3 +1,5 @@
+#![allow(unexpected_cfgs)] // cfg(derivre_sim), see sim.rs
+
 mod deriv;
 mod hashcons;
 mod nextbyte;
@@ -19,6 +21,9 @@ pub use regexbuilder::{RegexAst, RegexBuilder, JsonQuoteOptions};
 
 pub use mapper::map_ast; // utility function
 
+#[cfg(derivre_sim)]
+pub mod sim;
+
 pub mod raw {
     pub use super::ast::ExprSet;
     pub use super::deriv::DerivCache;
diff --git a/src/nextbyte.rs b/src/nextbyte.rs
index 1000d06..40bb697 100644
--- a/src/nextbyte.rs
+++ b/src/nextbyte.rs
@@ -71,3 +71,11 @@ impl NextByteCache {
         next
     }
 }
+
+#[cfg(derivre_sim)]
+impl NextByteCache {
+    pub fn sim_forget(&mut self, forget: crate::sim::Forget) {
+        self.next_byte_cache
+            .retain(|e, _| !forget(crate::sim::Memo::NextByte, e.as_u32(), 0));
+    }
+}
diff --git a/src/regex.rs b/src/regex.rs
index 5fe81d0..8ec06d0 100644
--- a/src/regex.rs
+++ b/src/regex.rs
@@ -491,3 +491,30 @@ impl Debug for Regex {
         write!(f, "Regex({})", self.stats())
     }
 }
+
+#[cfg(derivre_sim)]
+impl Regex {
+    pub fn sim_forget(&mut self, forget: crate::sim::Forget) {
+        use crate::sim::Memo;
+        let row = self.alpha.len();
+        // rows for DEAD and MISSING are fixed, not remembered
+        for idx in 2 * row..self.state_table.len() {
+            if self.state_table[idx] != StateID::MISSING
+                && forget(Memo::Transition, (idx / row) as u32, (idx % row) as u32)
+            {
+                self.state_table[idx] = StateID::MISSING;
+            }
+        }
+        for idx in 2..self.state_descs.len() {
+            if forget(Memo::LookaheadLen, idx as u32, 0) {
+                self.state_descs[idx].lookahead_len = None;
+            }
+            if forget(Memo::StateNextByte, idx as u32, 0) {
+                self.state_descs[idx].next_byte = None;
+            }
+        }
+        self.deriv.sim_forget(forget);
+        self.relevance.sim_forget(forget);
+        self.next_byte.sim_forget(forget);
+    }
+}
diff --git a/src/regexbuilder.rs b/src/regexbuilder.rs
index 310d8e8..fa07e1a 100644
--- a/src/regexbuilder.rs
+++ b/src/regexbuilder.rs
@@ -564,3 +564,11 @@ impl RegexBuilder {
         self
     }
 }
+
+#[cfg(derivre_sim)]
+impl RegexBuilder {
+    /// Forget compiled Unicode classes.
+    pub fn sim_forget_classes(&mut self) {
+        self.exprset.unicode_cache.clear();
+    }
+}
diff --git a/src/relevance.rs b/src/relevance.rs
index 5399fc9..99d931d 100644
--- a/src/relevance.rs
+++ b/src/relevance.rs
@@ -323,3 +323,14 @@ impl RelevanceCache {
         }
     }
 }
+
+#[cfg(derivre_sim)]
+impl RelevanceCache {
+    pub fn sim_forget(&mut self, forget: crate::sim::Forget) {
+        use crate::sim::Memo;
+        self.relevance_cache
+            .retain(|e, _| !forget(Memo::Relevance, e.as_u32(), 0));
+        self.sym_deriv
+            .retain(|e, _| !forget(Memo::SymDeriv, e.as_u32(), 0));
+    }
+}
diff --git a/src/sim.rs b/src/sim.rs
new file mode 100644
index 0000000..063c3ea
--- /dev/null
+++ b/src/sim.rs
@@ -0,0 +1,39 @@
+//! Hooks for deterministic simulation. Compiled only with `--cfg derivre_sim`;
+//! without it nothing here exists and the shipped behaviour is unchanged.
+
+use std::sync::atomic::{AtomicU64, Ordering};
+
+static HASH_MASK: AtomicU64 = AtomicU64::new(u64::MAX);
+
+/// Restrict the hash values used for interning, to force collisions.
+/// Must not be changed while any `VecHashCons` is alive.
+pub fn set_hash_mask(mask: u64) {
+    HASH_MASK.store(mask, Ordering::SeqCst);
+}
+
+pub(crate) fn perturb_hash(hash: u64) -> u64 {
+    hash & HASH_MASK.load(Ordering::SeqCst)
+}
+
+/// What kind of remembered result `sim_forget()` is asking about.
+#[derive(Clone, Copy, Debug, PartialEq, Eq)]
+pub enum Memo {
+    /// (state, symbol) in the transition table
+    Transition,
+    /// (state, 0) memoized lookahead length
+    LookaheadLen,
+    /// (state, 0) memoized next byte of a state
+    StateNextByte,
+    /// (expression, symbol) in the derivative cache
+    Deriv,
+    /// (expression, 0) in the relevance cache
+    Relevance,
+    /// (expression, 0) in the symbolic derivative cache
+    SymDeriv,
+    /// (expression, 0) in the next byte cache
+    NextByte,
+}
+
+/// Decides if given entry is to be forgotten.
+/// Entries are visited in no particular order, so it should be a function of the entry only.
+pub type Forget<'a> = &'a mut dyn FnMut(Memo, u32, u32) -> bool;
-- 
2.43.0


From a46d0c5a2a5e499aaebc5a7a0a779584c81ee59d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:05 +0000
Subject: [PATCH 2/6] fix: byte compressor indexes out of bounds when all 256
 bytes occur as single bytes

---
 src/bytecompress.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/bytecompress.rs b/src/bytecompress.rs
index 6942b8b..1d680cc 100644
--- a/src/bytecompress.rs
+++ b/src/bytecompress.rs
@@ -130,6 +130,10 @@ impl ByteCompressor {
         alloc: impl Fn(usize) -> T,
         set_true: impl Fn(&mut T, usize),
     ) {
+        if self.alphabet_size == self.mapping.len() {
+            // every byte has its own symbol; the last one is the same as INVALID_MAPPING
+            return;
+        }
         let mut byte_mapping = HashMap::new();
         for b in 0..self.mapping.len() {
             if self.mapping[b] == INVALID_MAPPING {
-- 
2.43.0


From c8c4c6b46c36ca4da7afc311385a5d9791031c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:28 +0000
Subject: [PATCH 3/6] fix: lookahead length of an alternative that matches with
 an empty lookahead

---
 src/ast.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/ast.rs b/src/ast.rs
index 6706098..5fe2a0e 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -401,10 +401,21 @@ impl ExprSet {
 
     pub fn lookahead_len(&self, e: ExprRef) -> Option<usize> {
         match self.get(e) {
-            Expr::Or(_, args) => args
-                .iter()
-                .filter_map(|&arg| self.lookahead_len_inner(arg))
-                .min(),
+            Expr::Or(_, args) => {
+                let len = args
+                    .iter()
+                    .filter_map(|&arg| self.lookahead_len_inner(arg))
+                    .min();
+                // an alternative whose lookahead matches right here, like a*(?P<stop>),
+                // need not be a Lookahead node itself
+                let is_match_here =
+                    |&arg| self.is_nullable(arg) && self.lookahead_len_inner(arg).is_none();
+                if len.is_some() && args.iter().any(is_match_here) {
+                    Some(0)
+                } else {
+                    len
+                }
+            }
             _ => self.lookahead_len_inner(e),
         }
     }
-- 
2.43.0


From 0ca8502621ecb5e6cd802b5262b4883d0e264083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:28 +0000
Subject: [PATCH 4/6] fix: VecHashCons panics when the first vector is empty
 and inserted incrementally

---
 src/hashcons.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hashcons.rs b/src/hashcons.rs
index 7458efa..db251b7 100644
--- a/src/hashcons.rs
+++ b/src/hashcons.rs
@@ -116,6 +116,8 @@ impl VecHashCons {
     /// Returns the unique id of the vector.
     /// Requires start_insert() to have been called.
     pub fn finish_insert(&mut self) -> u32 {
+        // nothing may have been pushed yet
+        self.ensure_size();
         let hasher = &self.hasher;
         let curr_backing = &self.backing[self.curr_elt.as_range()];
         let hash = hasher.hash_one(curr_backing);
-- 
2.43.0


From 135ad18d90616d19db5fe0d645e22ccb1ceacc59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:45 +0000
Subject: [PATCH 5/6] fix: byte sets of compressed alphabets have bits past the
 last symbol, so an empty language can look non-empty

---
 src/ast.rs      |  5 ++++-
 src/simplify.rs | 21 ++++++++++++++++-----
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/ast.rs b/src/ast.rs
index 5fe2a0e..ba67a8c 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -284,13 +284,16 @@ impl ExprSet {
             unicode_cache: std::collections::HashMap::new(),
         };
 
+        // the last word may have bits that do not stand for any symbol
+        let any_byte = r.full_byte_set();
+
         let id = r.exprs.insert(&[]);
         assert!(id == 0);
         let inserts = vec![
             (r.mk(Expr::EmptyString), ExprRef::EMPTY_STRING),
             (r.mk(Expr::NoMatch), ExprRef::NO_MATCH),
             (
-                r.mk(Expr::ByteSet(&vec![0xffffffff; alphabet_words])),
+                r.mk(Expr::ByteSet(&any_byte)),
                 ExprRef::ANY_BYTE,
             ),
             (
diff --git a/src/simplify.rs b/src/simplify.rs
index c09d1c4..7494b85 100644
--- a/src/simplify.rs
+++ b/src/simplify.rs
@@ -14,6 +14,15 @@ impl ExprSet {
         r
     }
 
+    /// All symbols of the alphabet, and no bits past its end.
+    pub(crate) fn full_byte_set(&self) -> Vec<u32> {
+        let mut r = vec![!0u32; self.alphabet_words];
+        for idx in self.alphabet_size..self.alphabet_words * 32 {
+            byteset_clear(&mut r, idx);
+        }
+        r
+    }
+
     pub fn mk_byte(&mut self, b: u8) -> ExprRef {
         self.pay(1);
         self.mk(Expr::Byte(b))
@@ -294,15 +303,17 @@ impl ExprSet {
     }
 
     pub fn mk_byte_set_not(&mut self, x: ExprRef) -> ExprRef {
+        let mut r = self.full_byte_set();
         match self.get(x) {
-            Expr::Byte(b) => {
-                let mut r = vec![!0u32; self.alphabet_words];
-                byteset_clear(&mut r, b as usize);
-                self.mk_byte_set(&r)
+            Expr::Byte(b) => byteset_clear(&mut r, b as usize),
+            Expr::ByteSet(bs) => {
+                for (r, b) in r.iter_mut().zip(bs) {
+                    *r &= !*b;
+                }
             }
-            Expr::ByteSet(bs) => self.mk_byte_set(&bs.iter().map(|v| !*v).collect::<Vec<_>>()),
             _ => panic!(),
         }
+        self.mk_byte_set(&r)
     }
 
     pub fn mk_byte_set_or(&mut self, args: &[ExprRef]) -> ExprRef {
-- 
2.43.0


From a8e1699a9dec9598f9b24612ecc0d23349f2a86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:05 +0000
Subject: [PATCH 6/6] fix: JSON quoting accepts an escaped quote or backslash
 that the byte set does not contain

---
 src/regexbuilder.rs | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/regexbuilder.rs b/src/regexbuilder.rs
index fa07e1a..590bf98 100644
--- a/src/regexbuilder.rs
+++ b/src/regexbuilder.rs
@@ -245,9 +245,19 @@ impl RegexBuilder {
         }
 
         // byteset of all possible single-char quotes
-        fn single_quote_byteset(include_nl: bool, options: &JsonQuoteOptions) -> Vec<u32> {
+        fn single_quote_byteset(
+            bs: &[u32],
+            include_nl: bool,
+            options: &JsonQuoteOptions,
+        ) -> Vec<u32> {
             let mut quoted_bs = byteset_256();
-            for c in b"\"\\bfrt" {
+            for c in b"\"\\" {
+                // these are not control characters, and may be missing from bs
+                if byteset_contains(bs, *c as usize) {
+                    options.set_if_allowed(&mut quoted_bs, *c);
+                }
+            }
+            for c in b"bfrt" {
                 options.set_if_allowed(&mut quoted_bs, *c);
             }
             if include_nl {
@@ -272,12 +282,13 @@ impl RegexBuilder {
         // all control characters, including \n or not
         fn quote_all_ctrl(
             exprset: &mut ExprSet,
+            bs: &[u32],
             include_nl: bool,
             options: &JsonQuoteOptions,
         ) -> ExprRef {
             let upref = exprset.mk_literal("u00");
             let backslash = exprset.mk_byte(b'\\');
-            let single_quote = exprset.mk_byte_set(&single_quote_byteset(include_nl, options));
+            let single_quote = exprset.mk_byte_set(&single_quote_byteset(bs, include_nl, options));
             let u0000 = if !options.is_allowed(b'u') {
                 ExprRef::NO_MATCH
             } else if include_nl {
@@ -309,10 +320,10 @@ impl RegexBuilder {
 
             let quoted = if bs[0] == 0xffff_ffff & !(1 << 10) {
                 // everything except for \n
-                quote_all_ctrl(exprset, false, options)
+                quote_all_ctrl(exprset, &bs, false, options)
             } else if bs[0] == 0xffff_ffff {
                 // everything
-                quote_all_ctrl(exprset, true, options)
+                quote_all_ctrl(exprset, &bs, true, options)
             } else {
                 let mut quoted_bs = byteset_256();
                 let mut other_bytes = vec![];
-- 
2.43.0

