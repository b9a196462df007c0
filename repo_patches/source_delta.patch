From 25c2b89489d6ea1333471d888728683140cdb65c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:26 +0000
Subject: [PATCH 01/59] verification hook: block size from the environment
 under cfg(nd_verif)

---
 src/params.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/params.rs b/src/params.rs
index e01189d..722216d 100644
--- a/src/params.rs
+++ b/src/params.rs
@@ -4,9 +4,21 @@
 #[cfg(test)]
 pub const BLOCK_SIZE: usize = 29 * 5;
 
-#[cfg(not(test))]
+#[cfg(all(not(test), not(nd_verif)))]
 pub const BLOCK_SIZE: usize = 2 * 1024 * 1024;
 
+// verification builds (RUSTFLAGS="--cfg nd_verif") take the block size from the environment at compile time
+#[cfg(all(not(test), nd_verif))]
+pub const BLOCK_SIZE: usize = {
+    let digits = env!("ND_VERIF_BLOCK_SIZE").as_bytes();
+    let (mut i, mut n) = (0, 0);
+    while i < digits.len() {
+        n = n * 10 + (digits[i] - b'0') as usize;
+        i += 1;
+    }
+    n
+};
+
 pub const MARGIN_SIZE: usize = 256;
 
 // end of params.rs
-- 
2.43.0


From 925fa356e6ccf31c8b9b63c242330436e809c8f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:39 +0000
Subject: [PATCH 02/59] fix: give '&', '^', '|' their C precedence in
 expressions

---
 src/eval.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/eval.rs b/src/eval.rs
index 9b60d7b..4bebd4f 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -61,9 +61,12 @@ fn latter_precedes(former: &Token, latter: &Token) -> bool {
                 return !is_shift(former);
             } else if is_pow(former) || is_pow(latter) {
                 return is_pow(latter);
+            } else if is_cmp(former) || is_cmp(latter) {
+                return !is_cmp(former);
             }
-            debug_assert!(is_cmp(former) && is_cmp(latter));
-            false
+            // the bitwise operators, '&' > '^' > '|'
+            let rank = |c: char| "&^|".find(c);
+            rank(former) > rank(latter)
         }
         _ => true,
     }
-- 
2.43.0


From b7138a5f201bfcdaefac5dd2fa622697608bad1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:39 +0000
Subject: [PATCH 03/59] fix: keep non-additive operators and array elements
 intact when canonizing expressions

---
 src/eval.rs | 46 +++++++++++++++++++++++++++++-----------------
 1 file changed, 29 insertions(+), 17 deletions(-)

diff --git a/src/eval.rs b/src/eval.rs
index 4bebd4f..3d44ce3 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -640,9 +640,13 @@ fn rotate_left(tokens: &mut [(Token, usize)]) -> Option<(bool, usize)> {
                 let zpos = (root - 1) - rlhs + 1;
                 tokens[zpos..].rotate_right(1);
 
-                let (s1, op1) = peel_sign_from_op(op1);
-                let (s2, op2) = peel_sign_from_op(op2);
-                let (op1, op2) = (fuse_sign3(s2, op1, op2), fuse_sign_op(s1, fuse_sign2(s2, op1)));
+                let (op1, op2) = if is_addsub(op1) {
+                    let (s1, op1) = peel_sign_from_op(op1);
+                    let (s2, op2) = peel_sign_from_op(op2);
+                    (fuse_sign3(s2, op1, op2), fuse_sign_op(s1, fuse_sign2(s2, op1)))
+                } else {
+                    (op1, op2)
+                };
                 save_and_flip(tokens, root - rlhs, Op(op1), lhs - rlhs);
                 save_and_flip(tokens, root, Op(op2), rlhs);
 
@@ -678,9 +682,13 @@ fn sort_tokens(tokens: &mut [(Token, usize)]) -> Option<(bool, usize)> {
     let lhs = root - tokens[root].1;
     match (tokens[lhs], tokens[root - 1].0, tokens[root].0) {
         ((Op(op1), llhs), y, Op(op2)) if is_comm_2(op1, op2) => {
-            let (s1, op1) = peel_sign_from_op(op1);
-            let (s2, op2) = peel_sign_from_op(op2);
-            let (op1, op2) = (fuse_sign2_op(s1, s2, op1), fuse_sign2(s1, op2));
+            let (op1, op2) = if is_addsub(op1) {
+                let (s1, op1) = peel_sign_from_op(op1);
+                let (s2, op2) = peel_sign_from_op(op2);
+                (fuse_sign2_op(s1, s2, op1), fuse_sign2(s1, op2))
+            } else {
+                (op1, op2)
+            };
 
             if needs_swap(&tokens[lhs - 1].0, &y) {
                 // (x (s1,op1) y) (s2,op2) z = s2(s1(x op1 y) op2 z) = pf1pf2((x op1 y) (s1,op2) z)
@@ -690,8 +698,8 @@ fn sort_tokens(tokens: &mut [(Token, usize)]) -> Option<(bool, usize)> {
                 save_and_flip(tokens, root, Op(op1), llhs);
                 return Some((true, root));
             }
-            if let (Var(x, xc), Var(y, yc)) = (tokens[lhs - 1].0, y) {
-                if x == y {
+            if let ((Var(x, xc), 0), (Var(y, yc), 0)) = (tokens[lhs - 1], tokens[root - 1]) {
+                if x == y && is_addsub(op2) {
                     // squash the two nodes if they have the same variable id
                     tokens[lhs - 1].0 = Var(x, apply_op(op2, xc, yc));
                     save_and_flip(tokens, lhs, Op(op1), 2);
@@ -709,8 +717,8 @@ fn sort_tokens(tokens: &mut [(Token, usize)]) -> Option<(bool, usize)> {
                 save_and_flip(tokens, root, Op(swap_op_hands(op)), ylen + 1);
                 return Some((false, root));
             }
-            if let (Var(x, xc), Var(y, yc)) = (x, y) {
-                if x == y {
+            if let ((Var(x, xc), 0), (Var(y, yc), 0)) = (tokens[lhs], tokens[root - 1]) {
+                if x == y && is_addsub(op) {
                     // squash the two nodes if they have the same variable id
                     tokens[lhs].0 = Var(x, apply_op(op, xc, yc));
                     return Some((false, lhs));
@@ -747,9 +755,13 @@ fn fold_constants(tokens: &mut [(Token, usize)]) -> Option<usize> {
         // (x + 2) + 3 => x + 5
         (Op(op1), Val(y), Op(op2)) if is_comm_2(op1, op2) => {
             if let Val(x) = tokens[lhs - 1].0 {
-                let (s1, op1) = peel_sign_from_op(op1);
-                let (s2, op2) = peel_sign_from_op(op2);
-                let (op1, op2) = (fuse_sign_op(fuse_sign2(s1, s2), op1), fuse_sign3(s1, op1, op2));
+                let (op1, op2) = if is_addsub(op1) {
+                    let (s1, op1) = peel_sign_from_op(op1);
+                    let (s2, op2) = peel_sign_from_op(op2);
+                    (fuse_sign_op(fuse_sign2(s1, s2), op1), fuse_sign3(s1, op1, op2))
+                } else {
+                    (op1, op2)
+                };
 
                 tokens[lhs - 1].0 = Val(apply_op(op2, x, y));
                 save_and_flip(tokens, lhs, Op(op1), 2);
@@ -792,16 +804,16 @@ fn remove_identity(tokens: &mut [(Token, usize)]) -> Option<usize> {
             tokens[lhs].0 = Var(id, apply_prefix('-', c));
             Some(lhs)
         }
-        ((Var(_, 0), _), x, Op(op)) if is_addsub(op) => {
+        ((Var(_, 0), 0), x, Op(op)) if is_addsub(op) => {
             // this arm applies to lhs, the special case for the leftmost subtree
             let (s, op) = peel_sign_from_op(op);
             let op = fuse_sign2(s, op);
-            match x {
-                Val(x) => {
+            match (x, tokens[root - 1].1) {
+                (Val(x), _) => {
                     tokens[lhs].0 = Val(apply_prefix(op, x));
                     Some(lhs)
                 }
-                Var(id, c) => {
+                (Var(id, c), 0) => {
                     tokens[lhs].0 = Var(id, apply_prefix(op, c));
                     Some(lhs)
                 }
-- 
2.43.0


From f5e96d6cf601de4989c3c978f1cc853bd37bbb27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:39 +0000
Subject: [PATCH 04/59] fix: don't fuse '~' and comparison results as signs
 when canonizing expressions

---
 src/eval.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/eval.rs b/src/eval.rs
index 3d44ce3..f485413 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -534,8 +534,8 @@ fn fuse_sign_op(s: char, op: char) -> char {
     match (s, op) {
         ('+', '+') => '+',
         ('+', '-') => '-',
-        ('+', '#') => '+',
-        ('+', '~') => '-',
+        ('+', '#') => '#',
+        ('+', '~') => '~',
         ('-', '+') => '#',
         ('-', '-') => '~',
         ('-', '#') => '+',
@@ -870,7 +870,7 @@ fn remove_prefix_unary(tokens: &mut [(Token, usize)]) -> Option<usize> {
 
     match (tokens[lhs], tokens[root].0) {
         ((Prefix(s1), llhs), Prefix(s2)) => {
-            if s1 == s2 {
+            if s1 == s2 && s1 != 'G' {
                 // x ! ! => x
                 remove_prefix_unary(&mut tokens[..lhs - llhs + 1])
             } else if is_addsub(s1) && is_addsub(s2) {
@@ -926,14 +926,14 @@ fn remove_prefix_binary(tokens: &mut [(Token, usize)]) -> Option<usize> {
     match (tokens[lhs], tokens[root - 1].0, tokens[root].0) {
         (x, y, Op(op)) if is_addsub(op) => {
             let (s1, lhs, root) = match x {
-                (Prefix(s1), llhs) => {
+                (Prefix(s1 @ ('+' | '-')), llhs) => {
                     tokens[lhs - llhs + 1..].rotate_left(llhs);
                     (s1, lhs - llhs, root - llhs)
                 }
                 _ => ('+', lhs, root),
             };
             let (s2, root) = match y {
-                Prefix(s2) => (s2, root - 1),
+                Prefix(s2 @ ('+' | '-')) => (s2, root - 1),
                 _ => ('+', root),
             };
             save_and_flip(tokens, root, Op(gather_sign2(s1, op, s2)), root - lhs);
-- 
2.43.0


From f5b0d38660fadd1a7e10a8ca5637b6b38e778900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:39 +0000
Subject: [PATCH 05/59] fix: x + (y - z) was rotated to (x - y) + z when
 canonizing expressions

---
 src/eval.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eval.rs b/src/eval.rs
index f485413..f919bba 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -643,7 +643,7 @@ fn rotate_left(tokens: &mut [(Token, usize)]) -> Option<(bool, usize)> {
                 let (op1, op2) = if is_addsub(op1) {
                     let (s1, op1) = peel_sign_from_op(op1);
                     let (s2, op2) = peel_sign_from_op(op2);
-                    (fuse_sign3(s2, op1, op2), fuse_sign_op(s1, fuse_sign2(s2, op1)))
+                    (fuse_sign2(s2, op1), fuse_sign_op(s1, fuse_sign3(s2, op1, op2)))
                 } else {
                     (op1, op2)
                 };
-- 
2.43.0


From d025a29f6256fa1ee14327826b1add3f3ad84262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:07 +0000
Subject: [PATCH 06/59] fix: report division by zero in expressions as an error
 instead of a panic

---
 src/eval.rs | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/eval.rs b/src/eval.rs
index f919bba..2026a30 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -452,15 +452,15 @@ fn apply_prefix(c: char, x: i64) -> i64 {
     }
 }
 
-fn apply_op(c: char, x: i64, y: i64) -> i64 {
-    match c {
+fn apply_op(c: char, x: i64, y: i64) -> Option<i64> {
+    let val = match c {
         '+' => x + y,
         '-' => x - y,
         '#' => -(x + y),
         '~' => -(x - y),
         '*' => x * y,
-        '/' => x / y,
-        '%' => x % y,
+        '/' => x.checked_div(y)?,
+        '%' => x.checked_rem(y)?,
         '&' => x & y,
         '|' => x | y,
         '^' => x ^ y,
@@ -486,7 +486,8 @@ fn apply_op(c: char, x: i64, y: i64) -> i64 {
             }
         } // FIXME
         _ => panic!("unknown op: {c:?}"),
-    }
+    };
+    Some(val)
 }
 
 fn is_comm_1(op: char) -> bool {
@@ -701,7 +702,7 @@ fn sort_tokens(tokens: &mut [(Token, usize)]) -> Option<(bool, usize)> {
             if let ((Var(x, xc), 0), (Var(y, yc), 0)) = (tokens[lhs - 1], tokens[root - 1]) {
                 if x == y && is_addsub(op2) {
                     // squash the two nodes if they have the same variable id
-                    tokens[lhs - 1].0 = Var(x, apply_op(op2, xc, yc));
+                    tokens[lhs - 1].0 = Var(x, apply_op(op2, xc, yc)?);
                     save_and_flip(tokens, lhs, Op(op1), 2);
                     return Some((false, lhs));
                 }
@@ -720,7 +721,7 @@ fn sort_tokens(tokens: &mut [(Token, usize)]) -> Option<(bool, usize)> {
             if let ((Var(x, xc), 0), (Var(y, yc), 0)) = (tokens[lhs], tokens[root - 1]) {
                 if x == y && is_addsub(op) {
                     // squash the two nodes if they have the same variable id
-                    tokens[lhs].0 = Var(x, apply_op(op, xc, yc));
+                    tokens[lhs].0 = Var(x, apply_op(op, xc, yc)?);
                     return Some((false, lhs));
                 }
             }
@@ -744,7 +745,7 @@ fn fold_constants(tokens: &mut [(Token, usize)]) -> Option<usize> {
     match (tokens[lhs].0, tokens[root - 1].0, tokens[root].0) {
         // 2 + 3 => 5 (leaf)
         (Val(x), Val(y), Op(op)) => {
-            tokens[lhs].0 = Val(apply_op(op, x, y));
+            tokens[lhs].0 = Val(apply_op(op, x, y)?);
             Some(lhs)
         }
         // x 2 * => x(2)
@@ -763,7 +764,7 @@ fn fold_constants(tokens: &mut [(Token, usize)]) -> Option<usize> {
                     (op1, op2)
                 };
 
-                tokens[lhs - 1].0 = Val(apply_op(op2, x, y));
+                tokens[lhs - 1].0 = Val(apply_op(op2, x, y)?);
                 save_and_flip(tokens, lhs, Op(op1), 2);
                 Some(lhs)
             } else {
@@ -1188,7 +1189,7 @@ where
             (Op(op), _) => {
                 let y = stack.pop().context(starved)?;
                 let x = stack.last_mut().context(starved)?;
-                *x = apply_op(op, *x, y);
+                *x = apply_op(op, *x, y).context("division by zero in evaluating expression")?;
             }
             (Var(id, c), lhs) => {
                 if lhs == 0 {
@@ -1299,7 +1300,7 @@ impl Rpn {
 
         let mut rpn = sort_into_rpn(&tokens).with_context(|| format!("parenthes not balanced in {input:?}"))?;
 
-        let len = canonize_rpn(&mut rpn).context("failed to canonize rpn (internal error)")?;
+        let len = canonize_rpn(&mut rpn).with_context(|| format!("failed to simplify {input:?} (division by zero?)"))?;
         rpn.truncate(len);
 
         Ok(Rpn { rpn })
-- 
2.43.0


From b189ab8c1c678cca0d4977140385bc729db3658e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:37 +0000
Subject: [PATCH 07/59] fix: --patch-back lost or corrupted the stream when the
 command was out of step with it

---
 src/byte/tee.rs    | 142 ++++++++++++++++++++++++++++++++++-----------
 src/drain/patch.rs |  58 +++++++++++-------
 src/pipeline.rs    |   2 +-
 3 files changed, 148 insertions(+), 54 deletions(-)

diff --git a/src/byte/tee.rs b/src/byte/tee.rs
index 10ef49f..264fe33 100644
--- a/src/byte/tee.rs
+++ b/src/byte/tee.rs
@@ -5,93 +5,169 @@ use crate::byte::ByteStream;
 use crate::filluninit::FillUninit;
 use crate::params::BLOCK_SIZE;
 use crate::streambuf::StreamBuf;
-use anyhow::Result;
+use anyhow::{anyhow, Result};
 use std::io::{Read, Seek, SeekFrom, Write};
-use std::sync::{Arc, Mutex};
+use std::sync::{Arc, Condvar, Mutex};
 use tempfile::SpooledTempFile;
 
 struct TempFile {
-    clear_eof: bool, // semaphore with a saturation counter
+    clear_eof: bool,      // semaphore with a saturation counter
+    tail: usize,          // #bytes written so far
+    is_closed: bool,      // true if no more byte comes
+    error: Option<String>, // set when the source stream is broken
     file: SpooledTempFile,
 }
 
+struct Cache {
+    inner: Mutex<TempFile>,
+    updated: Condvar,
+}
+
 pub struct TeeStream {
     src: Box<dyn ByteStream>,
-    cache: Arc<Mutex<TempFile>>,
+    cache: Arc<Cache>,
 }
 
 pub struct TeeStreamReader {
-    cache: Arc<Mutex<TempFile>>,
+    cache: Arc<Cache>,
     buf: StreamBuf,
     offset: usize,
+    is_blocking: bool,
 }
 
 impl TeeStream {
     pub fn new(src: Box<dyn ByteStream>) -> Self {
         let tempfile = TempFile {
             clear_eof: false,
+            tail: 0,
+            is_closed: false,
+            error: None,
             file: SpooledTempFile::new(128 * BLOCK_SIZE),
         };
+        let cache = Cache {
+            inner: Mutex::new(tempfile),
+            updated: Condvar::new(),
+        };
 
         TeeStream {
             src,
-            cache: Arc::new(Mutex::new(tempfile)),
+            cache: Arc::new(cache),
         }
     }
 
+    // creates a reader that gives a temporary EOF when it reached the tail of the cache
+    #[cfg(test)]
     pub fn spawn_reader(&self) -> TeeStreamReader {
+        self.spawn_reader_impl(false)
+    }
+
+    // creates a reader that waits for more bytes until TeeStream is dropped
+    pub fn spawn_blocking_reader(&self) -> TeeStreamReader {
+        self.spawn_reader_impl(true)
+    }
+
+    fn spawn_reader_impl(&self, is_blocking: bool) -> TeeStreamReader {
         TeeStreamReader {
             cache: Arc::clone(&self.cache),
             buf: StreamBuf::new(),
             offset: 0,
+            is_blocking,
         }
     }
-}
-
-impl ByteStream for TeeStream {
-    fn fill_buf(&mut self, request: usize) -> Result<(bool, usize)> {
-        self.src.fill_buf(request)
-    }
 
-    fn as_slice(&self) -> &[u8] {
-        self.src.as_slice()
-    }
-
-    fn consume(&mut self, bytes: usize) {
+    fn append(&mut self, bytes: usize) -> Result<()> {
         let stream = self.src.as_slice();
         debug_assert!(stream.len() >= bytes);
 
-        match self.cache.lock() {
+        match self.cache.inner.lock() {
             Ok(mut cache) => {
-                cache.file.write_all(&stream[..bytes]).unwrap();
+                // the position is shared with the reader
+                let tail = cache.tail as u64;
+                cache.file.seek(SeekFrom::Start(tail))?;
+                cache.file.write_all(&stream[..bytes])?;
+                cache.tail += bytes;
                 cache.clear_eof = true; // increment semaphore
             }
             _ => panic!("failed to lock cache."),
         }
+        self.cache.updated.notify_all();
 
         self.src.consume(bytes);
+        Ok(())
+    }
+
+    fn drain(&mut self) -> Result<()> {
+        loop {
+            let (is_eof, bytes) = self.src.fill_buf(BLOCK_SIZE)?;
+            if is_eof && bytes == 0 {
+                return Ok(());
+            }
+            self.append(bytes)?;
+        }
+    }
+}
+
+impl Drop for TeeStream {
+    fn drop(&mut self) {
+        // the consumer may not have reached the end of the stream. cache the remainder as well
+        let is_broken = std::thread::panicking() || matches!(self.cache.inner.lock(), Ok(cache) if cache.error.is_some());
+        let error = if is_broken {
+            Some("the stream is broken".to_string())
+        } else {
+            self.drain().err().map(|x| format!("{x:#}"))
+        };
+
+        if let Ok(mut cache) = self.cache.inner.lock() {
+            cache.error = cache.error.take().or(error);
+            cache.is_closed = true;
+        }
+        self.cache.updated.notify_all();
+    }
+}
+
+impl ByteStream for TeeStream {
+    fn fill_buf(&mut self, request: usize) -> Result<(bool, usize)> {
+        let ret = self.src.fill_buf(request);
+        if let (Err(e), Ok(mut cache)) = (&ret, self.cache.inner.lock()) {
+            cache.error = Some(format!("{e:#}"));
+        }
+        ret
+    }
+
+    fn as_slice(&self) -> &[u8] {
+        self.src.as_slice()
+    }
+
+    fn consume(&mut self, bytes: usize) {
+        self.append(bytes).unwrap();
     }
 }
 
 impl ByteStream for TeeStreamReader {
     fn fill_buf(&mut self, request: usize) -> Result<(bool, usize)> {
-        match self.cache.lock() {
-            Ok(mut cache) => {
-                if cache.clear_eof {
-                    self.buf.clear_eof();
-                    cache.clear_eof = false; // decrement semaphore
-                }
-                self.buf.fill_buf(request, |_, buf| {
-                    cache.file.seek(SeekFrom::Start(self.offset as u64)).unwrap();
+        let mut cache = self.cache.inner.lock().map_err(|_| anyhow!("failed to lock cache."))?;
 
-                    let len = buf.fill_uninit(BLOCK_SIZE, |buf| Ok(cache.file.read(buf)?))?;
-                    self.offset += len;
+        // wait for the next chunk if nothing remains
+        while self.is_blocking && self.buf.len() == 0 && self.offset >= cache.tail && !cache.is_closed {
+            cache = self.cache.updated.wait(cache).map_err(|_| anyhow!("failed to lock cache."))?;
+        }
+        if let Some(e) = &cache.error {
+            return Err(anyhow!("{e}"));
+        }
 
-                    Ok(len == 0)
-                })
-            }
-            _ => panic!("failed to lock cache."),
+        if cache.clear_eof {
+            self.buf.clear_eof();
+            cache.clear_eof = false; // decrement semaphore
         }
+        let (is_eof, bytes) = self.buf.fill_buf(request, |_, buf| {
+            cache.file.seek(SeekFrom::Start(self.offset as u64))?;
+
+            let len = buf.fill_uninit(BLOCK_SIZE, |buf| Ok(cache.file.read(buf)?))?;
+            self.offset += len;
+
+            Ok(len == 0)
+        })?;
+        Ok((is_eof && (!self.is_blocking || cache.is_closed), bytes))
     }
 
     fn as_slice(&self) -> &[u8] {
diff --git a/src/drain/patch.rs b/src/drain/patch.rs
index 7f4c767..336d944 100644
--- a/src/drain/patch.rs
+++ b/src/drain/patch.rs
@@ -2,10 +2,10 @@
 // @author Hajime Suzuki
 
 use crate::byte::{ByteStream, PatchStream, RawStream};
-use crate::params::BLOCK_SIZE;
+use crate::params::{BLOCK_SIZE, MARGIN_SIZE};
 use crate::segment::SegmentStream;
 use crate::text::{InoutFormat, TextFormatter};
-use anyhow::Result;
+use anyhow::{anyhow, Result};
 use std::io::Write;
 use std::process::{Child, ChildStdin, Command, Stdio};
 use std::thread::JoinHandle;
@@ -52,10 +52,9 @@ impl BashPipeWriter {
 }
 
 pub struct PatchDrain {
-    patch: PatchStream,
-    prev_bytes: usize,
+    patch: Option<PatchStream>,
     pipe: BashPipe,
-    thread: Option<JoinHandle<()>>,
+    thread: Option<JoinHandle<Result<()>>>,
 }
 
 impl PatchDrain {
@@ -68,33 +67,47 @@ impl PatchDrain {
             let mut patch = patch;
             let mut buf = Vec::new();
             let mut offset = 0;
+            let mut skip = 0; // #segments already formatted
 
             loop {
-                let (is_eof, bytes, _, max_consume) = patch.fill_segment_buf().unwrap();
+                let (is_eof, bytes, count, max_consume) = patch.fill_segment_buf()?;
                 if is_eof && bytes == 0 {
                     break;
                 }
 
                 let (stream, segments) = patch.as_slices();
-                formatter.format_segments(offset, stream, segments, &mut buf);
-                offset += patch.consume(max_consume).unwrap().0;
+                formatter.format_segments(offset, stream, &segments[skip..count], &mut buf);
+                skip = count;
+
+                let (bytes, count) = patch.consume(max_consume)?;
+                skip -= count;
+                offset += bytes;
 
                 if buf.len() >= BLOCK_SIZE {
-                    writer.write_all(&buf).unwrap();
+                    match writer.write_all(&buf) {
+                        // the command doesn't need the rest
+                        Err(e) if e.kind() == std::io::ErrorKind::BrokenPipe => return Ok(()),
+                        ret => ret?,
+                    };
                     buf.clear();
                 }
             }
 
-            writer.write_all(&buf).unwrap();
+            match writer.write_all(&buf) {
+                Err(e) if e.kind() == std::io::ErrorKind::BrokenPipe => {}
+                ret => {
+                    ret?;
+                }
+            }
             writer.close();
+            Ok(())
         });
 
         let reader = pipe.spawn_reader();
         let patch = PatchStream::new(original, Box::new(reader), format);
 
         PatchDrain {
-            patch,
-            prev_bytes: 0,
+            patch: Some(patch),
             pipe,
             thread: Some(thread),
         }
@@ -103,26 +116,31 @@ impl PatchDrain {
 
 impl ByteStream for PatchDrain {
     fn fill_buf(&mut self, request: usize) -> Result<(bool, usize)> {
-        let (is_eof, bytes) = self.patch.fill_buf(request)?;
+        let (is_eof, bytes) = match &mut self.patch {
+            Some(patch) => patch.fill_buf(request)?,
+            None => return Ok((true, 0)),
+        };
 
-        if is_eof && bytes == self.prev_bytes {
+        if is_eof && bytes == 0 {
             if let Some(thread) = self.thread.take() {
-                thread.join().unwrap();
+                thread.join().map_err(|_| anyhow!("failed to feed slices to the command"))??;
             }
 
-            self.pipe.child.wait().unwrap();
+            // close the pipe from the command before waiting for it
+            self.patch = None;
+            self.pipe.child.wait()?;
         }
-
-        self.prev_bytes = bytes;
         Ok((is_eof, bytes))
     }
 
     fn as_slice(&self) -> &[u8] {
-        self.patch.as_slice()
+        self.patch.as_ref().map_or(&[0; MARGIN_SIZE], |x| x.as_slice())
     }
 
     fn consume(&mut self, amount: usize) {
-        self.patch.consume(amount)
+        if let Some(patch) = &mut self.patch {
+            patch.consume(amount)
+        }
     }
 }
 
diff --git a/src/pipeline.rs b/src/pipeline.rs
index 00658e7..d097bbc 100644
--- a/src/pipeline.rs
+++ b/src/pipeline.rs
@@ -372,7 +372,7 @@ impl Pipeline {
                 }
                 (Tee, NodeInstance::Byte(prev)) => {
                     let next = Box::new(TeeStream::new(prev));
-                    cache = Some(Box::new(next.spawn_reader()));
+                    cache = Some(Box::new(next.spawn_blocking_reader()));
                     (cache, NodeInstance::Byte(next))
                 }
                 (Width(params), NodeInstance::Byte(prev)) => {
-- 
2.43.0


From 64f0cb94bd5c2abab75c8265c34300d3fa96aa53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:42 +0000
Subject: [PATCH 08/59] fix: apply insertions at the tail of the stream in
 --patch and --patch-back

---
 src/byte/patch.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/byte/patch.rs b/src/byte/patch.rs
index 6fe8beb..41c7850 100644
--- a/src/byte/patch.rs
+++ b/src/byte/patch.rs
@@ -99,6 +99,14 @@ impl ByteStream for PatchStream {
             }
 
             let (_, len) = self.src.fill_buf(BLOCK_SIZE)?;
+            if len == 0 {
+                // insertions at the tail of the stream
+                while self.patch.offset == self.offset {
+                    self.patch.feed(self.offset, buf)?;
+                }
+                return Ok(true);
+            }
+
             let mut rem_len = len;
             let mut stream = self.src.as_slice();
 
-- 
2.43.0


From 8afba7fcb7620429061b3b259279092ec7a4ec7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:56 +0000
Subject: [PATCH 09/59] fix: report a malformed first record as an error
 instead of a panic

---
 src/byte/patch.rs | 12 ++++++++----
 src/byte/text.rs  | 14 +++++++++-----
 2 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/byte/patch.rs b/src/byte/patch.rs
index 41c7850..b5017b5 100644
--- a/src/byte/patch.rs
+++ b/src/byte/patch.rs
@@ -67,25 +67,29 @@ pub struct PatchStream {
     buf: StreamBuf,
     skip: usize,
     offset: usize,
+    is_ready: bool, // true once the first patch record is loaded
 }
 
 impl PatchStream {
     pub fn new(src: Box<dyn ByteStream>, patch: Box<dyn ByteStream>, format: &InoutFormat) -> Self {
-        let mut patch = PatchFeeder::new(patch, format);
-        patch.fill_buf().unwrap();
-
         PatchStream {
             src,
-            patch,
+            patch: PatchFeeder::new(patch, format),
             buf: StreamBuf::new(),
             skip: 0,
             offset: 0,
+            is_ready: false,
         }
     }
 }
 
 impl ByteStream for PatchStream {
     fn fill_buf(&mut self, request: usize) -> Result<(bool, usize)> {
+        if !self.is_ready {
+            self.patch.fill_buf()?;
+            self.is_ready = true;
+        }
+
         self.buf.fill_buf(request, |_, buf| {
             while self.skip > 0 {
                 let (is_eof, len) = self.src.fill_buf(BLOCK_SIZE)?;
diff --git a/src/byte/text.rs b/src/byte/text.rs
index ec58818..3aa5696 100644
--- a/src/byte/text.rs
+++ b/src/byte/text.rs
@@ -83,24 +83,28 @@ pub struct TextStream {
     line: TextFeeder,
     buf: StreamBuf,
     offset: usize,
+    is_ready: bool, // true once the first line is loaded
 }
 
 impl TextStream {
     pub fn new(src: Box<dyn ByteStream>, align: usize, filler: u8, format: &InoutFormat) -> Self {
-        // read the first line
-        let mut line = TextFeeder::new(src, format);
-        line.fill_buf().unwrap();
-
         TextStream {
-            line,
+            line: TextFeeder::new(src, format),
             buf: StreamBuf::new_with_align(align, filler),
             offset: 0,
+            is_ready: false,
         }
     }
 }
 
 impl ByteStream for TextStream {
     fn fill_buf(&mut self, request: usize) -> Result<(bool, usize)> {
+        // read the first line
+        if !self.is_ready {
+            self.line.fill_buf()?;
+            self.is_ready = true;
+        }
+
         let filler = self.buf.filler();
         self.buf.fill_buf(request, |_, buf| {
             if self.line.offset == usize::MAX {
-- 
2.43.0


From db6d42b33c7660f9caabb88864a7242478d34a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:56 +0000
Subject: [PATCH 10/59] fix: ranges whose end is at the head of the stream
 underflowed

---
 src/mapper.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mapper.rs b/src/mapper.rs
index 83f6920..44a767a 100644
--- a/src/mapper.rs
+++ b/src/mapper.rs
@@ -195,7 +195,7 @@ impl RangeMapper {
     pub fn trans_offset(&self) -> usize {
         match (self.start, self.end) {
             (StartAnchored(x), EndAnchored(_)) => x,
-            (EndAnchored(_), StartAnchored(x)) => x - 1,
+            (EndAnchored(_), StartAnchored(x)) => x.saturating_sub(1),
             _ => usize::MAX,
         }
     }
-- 
2.43.0


From d87225f900c438b46aaab0d2ebcc11d570d3d8f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:04 +0000
Subject: [PATCH 11/59] fix: handle long and overflowing constants and the 'E'
 prefix in expressions

---
 src/eval.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/eval.rs b/src/eval.rs
index 2026a30..45127a0 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -213,18 +213,18 @@ where
         skip_mask = (skip_mask << 1) | (skip as u64);
     };
 
-    let mut i = 0;
-    let mut digits = [0u8; 32];
-    let mut push_digit = |digit: i64| {
-        digits[i] = digit as u8;
-        i += 1;
-    };
+    let mut digits = Vec::new();
+    let mut push_digit = |digit: i64| digits.push(digit);
 
     let (skip, digit) = parse_char(first)?;
     push_skip_mask(skip);
     push_digit(digit);
 
     while let Some((skip, digit)) = parse_char(*it.peek().unwrap_or(&'\n')) {
+        // 'e' is not a digit but the exa prefix unless the number is in hexadecimal
+        if digit >= 10 && num_base <= 10 {
+            break;
+        }
         push_skip_mask(skip);
         if !skip {
             push_digit(digit);
@@ -236,12 +236,12 @@ where
     if (skip_mask & ((skip_mask << 1) | 1)) != 0 {
         return None;
     }
-    let mut val = 0;
-    for &digit in &digits[..i] {
-        if digit as i64 >= num_base {
+    let mut val = 0i64;
+    for &digit in &digits {
+        if digit >= num_base {
             return None;
         }
-        val = val * num_base + digit as i64;
+        val = val.checked_mul(num_base)?.checked_add(digit)?;
     }
 
     let scaler = match it.peek() {
@@ -249,11 +249,11 @@ where
         Some(&x) if tolower(x) == 'm' => parse_prefix(2, it)?,
         Some(&x) if tolower(x) == 'g' => parse_prefix(3, it)?,
         Some(&x) if tolower(x) == 't' => parse_prefix(4, it)?,
-        Some(&x) if tolower(x) == 'e' => parse_prefix(5, it)?,
+        Some(&x) if tolower(x) == 'e' => parse_prefix(6, it)?,
         _ => 1,
     };
 
-    Some(Val(val * scaler))
+    Some(Val(val.checked_mul(scaler)?))
 }
 
 fn parse_var<I>(first: char, vars: Option<&HashMap<&[u8], VarAttr>>, it: &mut Peekable<I>) -> Option<Token>
-- 
2.43.0


From 558459834dec93ebee1857043ad81baca6275740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:43 +0000
Subject: [PATCH 12/59] fix: wrap on overflow in evaluating expressions instead
 of a panic

---
 src/eval.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/eval.rs b/src/eval.rs
index 45127a0..e60229a 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -445,7 +445,7 @@ fn test_sort_into_rpn() {
 fn apply_prefix(c: char, x: i64) -> i64 {
     match c {
         '+' => x,
-        '-' => -x,
+        '-' => x.wrapping_neg(),
         '!' => !x,
         'G' => (x >= 0) as i64,
         _ => panic!("unknown op: {c:?}"),
@@ -454,11 +454,11 @@ fn apply_prefix(c: char, x: i64) -> i64 {
 
 fn apply_op(c: char, x: i64, y: i64) -> Option<i64> {
     let val = match c {
-        '+' => x + y,
-        '-' => x - y,
-        '#' => -(x + y),
-        '~' => -(x - y),
-        '*' => x * y,
+        '+' => x.wrapping_add(y),
+        '-' => x.wrapping_sub(y),
+        '#' => x.wrapping_add(y).wrapping_neg(),
+        '~' => y.wrapping_sub(x),
+        '*' => x.wrapping_mul(y),
         '/' => x.checked_div(y)?,
         '%' => x.checked_rem(y)?,
         '&' => x & y,
@@ -468,19 +468,19 @@ fn apply_op(c: char, x: i64, y: i64) -> Option<i64> {
             if y >= 0 {
                 x << ((y as usize) & 0x3f)
             } else {
-                x >> ((-y as usize) & 0x3f)
+                x >> ((y.wrapping_neg() as usize) & 0x3f)
             }
         }
         '>' => {
             if y >= 0 {
                 x >> ((y as usize) & 0x3f)
             } else {
-                x << ((-y as usize) & 0x3f)
+                x << ((y.wrapping_neg() as usize) & 0x3f)
             }
         }
         '@' => {
             if y >= 0 {
-                x.pow(y as u32)
+                x.wrapping_pow(y as u32)
             } else {
                 0
             }
@@ -750,7 +750,7 @@ fn fold_constants(tokens: &mut [(Token, usize)]) -> Option<usize> {
         }
         // x 2 * => x(2)
         (Var(id, c), Val(x), Op('*')) => {
-            tokens[lhs].0 = Var(id, c * x);
+            tokens[lhs].0 = Var(id, c.wrapping_mul(x));
             Some(lhs)
         }
         // (x + 2) + 3 => x + 5
@@ -1193,10 +1193,10 @@ where
             }
             (Var(id, c), lhs) => {
                 if lhs == 0 {
-                    stack.push(c * get(id, 0));
+                    stack.push(c.wrapping_mul(get(id, 0)));
                 } else {
                     let x = stack.last_mut().context(starved)?;
-                    *x = c * get(id, *x);
+                    *x = c.wrapping_mul(get(id, *x));
                 }
             }
             _ => {
-- 
2.43.0


From 627e0402a899387e5f59fac9a64a5d61bbd0b5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:04 +0000
Subject: [PATCH 13/59] fix: abort cleanly on invalid spans and clip the last
 chunk in --walk

---
 src/segment/walk.rs | 144 +++++++++++++++++++++++++++++---------------
 1 file changed, 94 insertions(+), 50 deletions(-)

diff --git a/src/segment/walk.rs b/src/segment/walk.rs
index d089694..d8d45f6 100644
--- a/src/segment/walk.rs
+++ b/src/segment/walk.rs
@@ -5,7 +5,7 @@ use super::{Segment, SegmentStream};
 use crate::byte::ByteStream;
 use crate::eval::{Rpn, VarAttr};
 use crate::params::BLOCK_SIZE;
-use anyhow::Result;
+use anyhow::{anyhow, Context, Result};
 use std::collections::HashMap;
 
 struct SpanFetcher {
@@ -31,53 +31,92 @@ impl SpanFetcher {
         Ok(SpanFetcher { expr, rpn })
     }
 
-    fn get_array_element(skip: usize, elem_size: usize, index: i64, src: &mut Box<dyn ByteStream>) -> i64 {
+    fn get_array_element(skip: usize, elem_size: usize, index: i64, src: &mut StreamFiller) -> Result<i64> {
         debug_assert!((1..=8).contains(&elem_size) && elem_size.is_power_of_two());
 
-        if index < 0 {
-            panic!("slice index being negative (got: {index}).");
-        }
-
-        let offset = skip + index as usize * elem_size;
-        let min_fill_bytes = offset + elem_size;
+        let min_fill_bytes = usize::try_from(index)
+            .map_err(|_| anyhow!("slice index being negative (got: {index})."))?
+            .checked_add(1)
+            .and_then(|x| x.checked_mul(elem_size))
+            .and_then(|x| x.checked_add(skip))
+            .with_context(|| format!("slice index being too large (got: {index})."))?;
 
-        let (_, bytes) = src.fill_buf(min_fill_bytes).expect("failed to feed the input stream");
+        let (_, bytes) = src.fill_buf_until(min_fill_bytes)?;
         if bytes < min_fill_bytes {
-            return 0;
+            return Ok(0);
         }
 
         // always in the little endian for now
         // FIXME: explicit big / little endian with "bb", "hb", "wb", ..., and "bl", "hl", "wl", ...
+        let offset = min_fill_bytes - elem_size;
         let stream = src.as_slice();
         let stream = &stream[offset..offset + 8];
 
         // leave the lower typesize bits (8 bits for "b", 16 bits for "h", ...)
         let val = i64::from_le_bytes(stream.try_into().unwrap());
         let shift = 64 - 8 * elem_size;
-        (val << shift) >> shift
+        Ok((val << shift) >> shift)
     }
 
-    fn get_next_span(&self, skip: usize, src: &mut Box<dyn ByteStream>) -> usize {
-        let getter = |id: usize, val: i64| -> i64 { Self::get_array_element(skip, id, val, src) };
+    fn get_next_span(&self, skip: usize, src: &mut StreamFiller) -> Result<usize> {
+        let mut error = None;
+        let getter = |id: usize, val: i64| -> i64 {
+            Self::get_array_element(skip, id, val, src).unwrap_or_else(|e| {
+                error.get_or_insert(e);
+                0
+            })
+        };
 
         let val = self.rpn.evaluate(getter);
-        if val.is_err() {
-            panic!("failed on evaluating expression: {:?}", &self.expr);
+        if let Some(error) = error {
+            return Err(error);
         }
 
-        let val = val.unwrap();
+        let val = val.with_context(|| format!("failed on evaluating expression: {:?}", &self.expr))?;
         if val <= 0 {
-            panic!(
+            return Err(anyhow!(
                 "slice span being non-positive on evaluating expression: {:?} (got: {}).",
-                &self.expr, val
-            );
+                &self.expr,
+                val
+            ));
         }
-        val as usize
+        Ok(val as usize)
     }
 }
 
-pub struct WalkSlicer {
+struct StreamFiller {
     src: Box<dyn ByteStream>,
+    is_eof: bool,
+    bytes: usize,
+}
+
+impl StreamFiller {
+    fn fill_buf(&mut self, request: usize) -> Result<(bool, usize)> {
+        (self.is_eof, self.bytes) = self.src.fill_buf(request)?;
+        Ok((self.is_eof, self.bytes))
+    }
+
+    // extends the buffer only when it's shorter than the request, block by block, so that
+    // it doesn't allocate memory for a span that goes far beyond the end of the stream
+    fn fill_buf_until(&mut self, request: usize) -> Result<(bool, usize)> {
+        while !self.is_eof && self.bytes < request {
+            self.fill_buf(std::cmp::min(request, self.bytes + BLOCK_SIZE))?;
+        }
+        Ok((self.is_eof, self.bytes))
+    }
+
+    fn as_slice(&self) -> &[u8] {
+        self.src.as_slice()
+    }
+
+    fn consume(&mut self, amount: usize) {
+        self.src.consume(amount);
+        self.bytes -= amount;
+    }
+}
+
+pub struct WalkSlicer {
+    src: StreamFiller,
     fetchers: Vec<SpanFetcher>,
     spans: Vec<usize>,
     segments: Vec<Segment>,
@@ -96,6 +135,12 @@ impl WalkSlicer {
 
         let segments = Vec::new();
 
+        let src = StreamFiller {
+            src,
+            is_eof: false,
+            bytes: 0,
+        };
+
         Ok(WalkSlicer {
             src,
             fetchers,
@@ -105,36 +150,40 @@ impl WalkSlicer {
         })
     }
 
-    fn calc_next_chunk_len(&mut self) -> usize {
-        let mut chunk_len = 0;
+    fn calc_next_chunk_len(&mut self) -> Result<usize> {
+        let mut chunk_len = 0usize;
         for (i, f) in self.fetchers.iter().enumerate() {
-            let span = f.get_next_span(self.pos, &mut self.src);
+            let span = f.get_next_span(self.pos, &mut self.src)?;
             self.spans[i] = span;
 
-            chunk_len += span;
+            chunk_len = chunk_len.saturating_add(span);
         }
-        chunk_len
+        Ok(chunk_len)
     }
 
     fn extend_segment_buf(&mut self, chunk_len: usize) -> Result<(bool, usize)> {
-        let (is_eof, bytes) = self.src.fill_buf(chunk_len)?;
-        if is_eof && bytes < chunk_len {
+        let request = self.pos.saturating_add(chunk_len);
+        let (is_eof, bytes) = self.src.fill_buf_until(request)?;
+        if is_eof && bytes < request {
             // TODO: use logger
-            eprintln!("chunk clipped (request = {chunk_len}, remaining bytes = {bytes})");
+            eprintln!(
+                "chunk clipped (request = {chunk_len}, remaining bytes = {})",
+                bytes - self.pos
+            );
         }
 
-        for span in &self.spans {
+        for &span in &self.spans {
             if self.pos >= bytes {
                 break;
             }
 
-            let len = std::cmp::min(self.pos + span, bytes) - self.pos;
-            if len < *span {
+            let len = std::cmp::min(span, bytes - self.pos);
+            if len < span {
                 eprintln!("slice clipped (span = {span}, remaining bytes = {len}).");
             }
 
             self.segments.push(Segment { pos: self.pos, len });
-            self.pos += span;
+            self.pos += len;
         }
         Ok((is_eof, bytes))
     }
@@ -143,25 +192,20 @@ impl WalkSlicer {
 impl SegmentStream for WalkSlicer {
     fn fill_segment_buf(&mut self) -> Result<(bool, usize, usize, usize)> {
         let request = std::cmp::max(BLOCK_SIZE, 2 * self.pos);
-        let (is_eof, bytes) = self.src.fill_buf(request)?;
-
-        if is_eof && self.pos >= bytes {
-            let count = self.segments.len();
-            let max_consume = std::cmp::min(bytes, self.pos);
-            return Ok((is_eof, bytes, count, max_consume));
-        }
-
-        let (is_eof, bytes) = loop {
-            let chunk_len = self.calc_next_chunk_len();
-            if self.pos + chunk_len > bytes {
-                break (is_eof, bytes);
+        let (mut is_eof, mut bytes) = self.src.fill_buf(request)?;
+
+        let mut is_first = true;
+        while self.pos < bytes {
+            // leave the chunk for the next call if it's not in the buffer. note that at least
+            // one chunk must be sliced out at once, even if it's longer than the buffer
+            let chunk_len = self.calc_next_chunk_len()?;
+            if !is_first && !is_eof && self.pos.saturating_add(chunk_len) > bytes {
+                break;
             }
+            is_first = false;
 
-            let (is_eof, bytes) = self.extend_segment_buf(chunk_len)?;
-            if self.pos >= bytes {
-                break (is_eof, bytes);
-            }
-        };
+            (is_eof, bytes) = self.extend_segment_buf(chunk_len)?;
+        }
 
         let count = self.segments.len();
         let max_consume = std::cmp::min(bytes, self.pos);
-- 
2.43.0


From 652b3e5b7c5da5d53885012a2b1acdfc015f52e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:59 +0000
Subject: [PATCH 14/59] fix: --find reported overlapping matches around the
 chunk boundaries

---
 src/segment/exact.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/segment/exact.rs b/src/segment/exact.rs
index c6bbaca..b148c15 100644
--- a/src/segment/exact.rs
+++ b/src/segment/exact.rs
@@ -11,6 +11,7 @@ pub struct ExactMatchSlicer {
     src: Box<dyn ByteStream>,
     segments: Vec<Segment>,
     scanned: usize,
+    next: usize, // where the next scan starts; skips the matches that cross `scanned`
     pattern: Vec<u8>,
 }
 
@@ -33,6 +34,7 @@ impl ExactMatchSlicer {
             src,
             segments: Vec::new(),
             scanned: 0,
+            next: 0,
             pattern: buf,
         })
     }
@@ -51,14 +53,14 @@ impl SegmentStream for ExactMatchSlicer {
         let stream = self.src.as_slice();
         let len = self.pattern.len();
 
-        for pos in memchr::memmem::find_iter(&stream[self.scanned..bytes], &self.pattern) {
-            self.segments.push(Segment {
-                pos: self.scanned + pos,
-                len,
-            });
+        let base = self.next;
+        for pos in memchr::memmem::find_iter(&stream[base..bytes], &self.pattern) {
+            self.segments.push(Segment { pos: base + pos, len });
+            self.next = base + pos + len;
         }
 
-        self.scanned = if is_eof { bytes } else { bytes - self.pattern.len() + 1 };
+        self.scanned = if is_eof { bytes } else { (bytes + 1).saturating_sub(len) };
+        self.next = std::cmp::max(self.next, self.scanned);
         Ok((is_eof, bytes, self.segments.len(), self.scanned))
     }
 
@@ -81,6 +83,7 @@ impl SegmentStream for ExactMatchSlicer {
             s.pos -= bytes;
         }
         self.scanned -= bytes;
+        self.next = self.next.saturating_sub(bytes);
 
         Ok((bytes, from))
     }
-- 
2.43.0


From be36fdae4c467f2821e44683678e25320b8e2430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:59 +0000
Subject: [PATCH 15/59] fix: --regex lost matches around the chunk boundaries
 and emitted unsorted ones

---
 src/segment/regex.rs | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/src/segment/regex.rs b/src/segment/regex.rs
index b8afac7..0894d7d 100644
--- a/src/segment/regex.rs
+++ b/src/segment/regex.rs
@@ -9,7 +9,8 @@ use regex::bytes::{Match, Regex};
 pub struct RegexSlicer {
     src: Box<dyn SegmentStream>,
     matches: Vec<Segment>,
-    scanned: usize,
+    scanned: usize, // #source segments already scanned
+    exposed: usize, // #matches whose positions are before max_consume
     re: Regex,
 }
 
@@ -22,6 +23,7 @@ impl RegexSlicer {
             src,
             matches,
             scanned: 0,
+            exposed: 0,
             re,
         })
     }
@@ -39,27 +41,31 @@ impl SegmentStream for RegexSlicer {
         let (is_eof, bytes, count, max_consume) = self.src.fill_segment_buf()?;
 
         let (stream, segments) = self.src.as_slices();
-        for s in &segments[..count] {
-            if s.pos < self.scanned {
-                continue;
-            }
-
+        for s in &segments[self.scanned..count] {
             self.matches
                 .extend(self.re.find_iter(&stream[s.as_range()]).map(|x| to_segment(x, s.pos)));
         }
+        self.scanned = count;
+
+        // matches are not always sorted when the source segments overlap. those located at or after
+        // max_consume are not exposed as they can be preceded by a match found in the next chunk
+        self.matches.sort_by_key(|x| (x.pos, x.len));
+        self.exposed = if is_eof {
+            self.matches.len()
+        } else {
+            self.matches.partition_point(|x| x.pos < max_consume)
+        };
 
-        self.scanned += bytes;
-
-        Ok((is_eof, bytes, self.matches.len(), max_consume))
+        Ok((is_eof, bytes, self.exposed, max_consume))
     }
 
     fn as_slices(&self) -> (&[u8], &[Segment]) {
         let (stream, _) = self.src.as_slices();
-        (stream, &self.matches)
+        (stream, &self.matches[..self.exposed])
     }
 
     fn consume(&mut self, bytes: usize) -> Result<(usize, usize)> {
-        let (bytes, _) = self.src.consume(bytes)?;
+        let (bytes, count) = self.src.consume(bytes)?;
         if bytes == 0 {
             return Ok((0, 0));
         }
@@ -75,7 +81,8 @@ impl SegmentStream for RegexSlicer {
             m.pos -= bytes;
         }
 
-        self.scanned -= bytes;
+        self.scanned -= count;
+        self.exposed -= from;
 
         Ok((bytes, from))
     }
-- 
2.43.0


From 9ecbcf7513bfb8d5d330eeba757ba24ccbac90ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:41 +0000
Subject: [PATCH 16/59] fix: clip guided slices at the tail of the stream and
 reject unsorted guides

---
 src/segment/guided.rs | 79 +++++++++++++++++++++++++------------------
 1 file changed, 46 insertions(+), 33 deletions(-)

diff --git a/src/segment/guided.rs b/src/segment/guided.rs
index 35722b0..ea7c38a 100644
--- a/src/segment/guided.rs
+++ b/src/segment/guided.rs
@@ -6,14 +6,15 @@ use crate::byte::ByteStream;
 use crate::params::BLOCK_SIZE;
 use crate::text::parser::TextParser;
 use crate::text::InoutFormat;
-use anyhow::Result;
+use anyhow::{anyhow, Result};
 
 pub struct GuidedSlicer {
     src: Box<dyn ByteStream>,
     guide: TextParser,
     buf: Vec<u8>,
+    next: Option<(usize, usize)>, // (offset, span) of the guide that is not sliced out yet
+    last_offset: usize,
     segments: Vec<Segment>,
-    guide_consumed: usize,
     src_consumed: usize,
     max_consume: usize,
 }
@@ -24,48 +25,60 @@ impl GuidedSlicer {
             src,
             guide: TextParser::new(guide, &InoutFormat::from_str("xxx").unwrap()),
             buf: Vec::new(),
+            next: None,
+            last_offset: 0,
             segments: Vec::new(),
-            guide_consumed: 0,
             src_consumed: 0,
             max_consume: 0,
         }
     }
 
-    fn extend_segment_buf(&mut self, is_eof: bool, bytes: usize) -> Result<()> {
-        // all existing segments must be covered as we requested longer
-        debug_assert!(self.segments.last().map_or(0, |x| x.tail()) <= bytes);
+    fn read_guide(&mut self) -> Result<Option<(usize, usize)>> {
+        self.buf.clear();
 
-        // first update max_consume to the end of the current chunk of the stream
-        // (may be shortened in the loop)
-        self.max_consume = bytes;
+        let next = self.guide.read_line(&mut self.buf)?;
+        if let Some((offset, _)) = next {
+            if offset < self.last_offset {
+                return Err(anyhow!(
+                    "guide records must be sorted by their offsets (at {})",
+                    &self.guide.format_cache(true)
+                ));
+            }
+            self.last_offset = offset;
+        }
+        Ok(next)
+    }
 
+    fn extend_segment_buf(&mut self, is_eof: bool, bytes: usize) -> Result<()> {
         let tail = self.src_consumed + bytes; // in absolute offset
         loop {
-            // read the next guide to the buffer
-            self.buf.clear();
-
-            let ret = self.guide.read_line(&mut self.buf)?;
-            if ret.is_none() {
-                // the guide stream reached EOF
-                self.guide_consumed = self.segments.len();
-                break;
+            if self.next.is_none() {
+                self.next = self.read_guide()?;
             }
-            let (offset, span) = ret.unwrap();
-
-            // slice the stream out by the guide
-            let pos = offset - self.src_consumed;
-            let len = if is_eof {
-                std::cmp::min(offset + span, tail) - offset
-            } else {
-                span
+
+            let (offset, span) = match self.next {
+                Some(next) => next,
+                None => {
+                    // the guide stream reached EOF
+                    self.max_consume = bytes;
+                    break;
+                }
             };
-            self.segments.push(Segment { pos, len });
 
-            if offset + span > tail {
-                self.max_consume = std::cmp::min(self.max_consume, pos);
-                self.guide_consumed = self.segments.len() - 1; // do not expose the last segment
+            // leave the guide for the next call if the slice is not covered by the current chunk
+            if !is_eof && offset + span > tail {
+                self.max_consume = std::cmp::min(bytes, offset - self.src_consumed);
                 break;
             }
+            self.next = None;
+
+            // slice the stream out by the guide, clipped at the tail of the stream
+            if offset < tail || !is_eof {
+                self.segments.push(Segment {
+                    pos: offset - self.src_consumed,
+                    len: std::cmp::min(span, tail - offset),
+                });
+            }
         }
         Ok(())
     }
@@ -73,17 +86,18 @@ impl GuidedSlicer {
 
 impl SegmentStream for GuidedSlicer {
     fn fill_segment_buf(&mut self) -> Result<(bool, usize, usize, usize)> {
-        let request = std::cmp::max(BLOCK_SIZE, self.segments.last().map_or(0, |x| x.tail()));
+        let next_tail = self.next.map_or(0, |(offset, span)| offset + span - self.src_consumed);
+        let request = std::cmp::max(BLOCK_SIZE, next_tail);
         let (is_eof, bytes) = self.src.fill_buf(request)?;
 
         self.extend_segment_buf(is_eof, bytes)?;
 
-        Ok((is_eof, bytes, self.guide_consumed, self.max_consume))
+        Ok((is_eof, bytes, self.segments.len(), self.max_consume))
     }
 
     fn as_slices(&self) -> (&[u8], &[Segment]) {
         let stream = self.src.as_slice();
-        (stream, &self.segments[..self.guide_consumed])
+        (stream, &self.segments)
     }
 
     fn consume(&mut self, bytes: usize) -> Result<(usize, usize)> {
@@ -99,7 +113,6 @@ impl SegmentStream for GuidedSlicer {
         for s in &mut self.segments {
             s.pos -= bytes;
         }
-        self.guide_consumed -= from;
         self.src_consumed += bytes;
         self.max_consume -= bytes;
 
-- 
2.43.0


From 12a3cd2d69a23aca7b6b3747f3bfcc6bc8ab1db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:07 +0000
Subject: [PATCH 17/59] fix: slices not consumed at once made the number of
 dumped slices inconsistent

---
 src/drain/scatter.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/drain/scatter.rs b/src/drain/scatter.rs
index 80be049..53b6ef8 100644
--- a/src/drain/scatter.rs
+++ b/src/drain/scatter.rs
@@ -125,7 +125,7 @@ impl ScatterDrain {
 
             self.formatter
                 .format_segments(self.offset, stream, &segments[self.src_consumed..count], buf);
-            self.src_consumed += count;
+            self.src_consumed = count;
 
             // consumed bytes and count
             let (bytes, count) = self.src.consume(max_consume)?;
@@ -157,7 +157,7 @@ impl ScatterDrain {
                     .unwrap()
                     .dump_segment(&self.buf, self.offset + s[0].pos, self.lines + i)?;
             }
-            self.src_consumed += count;
+            self.src_consumed = count;
 
             // consumed bytes and count
             let (bytes, count) = self.src.consume(max_consume)?;
-- 
2.43.0


From 351e40c0496a38ddb634987b58277789d16d4c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:07 +0000
Subject: [PATCH 18/59] fix: clear the output file before dumping the first
 slice

---
 src/drain/scatter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/drain/scatter.rs b/src/drain/scatter.rs
index 53b6ef8..37e0b62 100644
--- a/src/drain/scatter.rs
+++ b/src/drain/scatter.rs
@@ -31,7 +31,7 @@ impl Drain {
         }
 
         let file = template.render(|_, _| 0)?;
-        let file = OpenOptions::new().read(false).write(true).create(true).open(file)?;
+        let file = OpenOptions::new().read(false).write(true).create(true).truncate(true).open(file)?;
         Ok(Drain::File(file))
     }
 }
-- 
2.43.0


From 1faee9d6a01c752577ee698f6fdb208f7d4ac204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:08 +0000
Subject: [PATCH 19/59] fix: slice index in the output template was not
 incremented for unconsumed slices

---
 src/drain/scatter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/drain/scatter.rs b/src/drain/scatter.rs
index 37e0b62..b7b3236 100644
--- a/src/drain/scatter.rs
+++ b/src/drain/scatter.rs
@@ -155,7 +155,7 @@ impl ScatterDrain {
                 self.file
                     .as_mut()
                     .unwrap()
-                    .dump_segment(&self.buf, self.offset + s[0].pos, self.lines + i)?;
+                    .dump_segment(&self.buf, self.offset + s[0].pos, self.lines + self.src_consumed + i)?;
             }
             self.src_consumed = count;
 
-- 
2.43.0


From 413ecad597a1987897caa00e3f2e842c45c5326c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:08 +0000
Subject: [PATCH 20/59] fix: --zip didn't stop at the end of the shortest input

---
 src/byte/zip.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/byte/zip.rs b/src/byte/zip.rs
index 7befbfc..ff05867 100644
--- a/src/byte/zip.rs
+++ b/src/byte/zip.rs
@@ -74,14 +74,19 @@ impl Zipper {
         let request = (request + self.srcs.len() - 1) / self.srcs.len();
 
         // bulk_len is the minimum valid slice length among the source buffers
-        let mut is_eof = true;
         let mut len = usize::MAX;
+        let mut eof_len = usize::MAX; // minimum remaining length among the sources that reached EOF
         for src in &mut self.srcs {
             let (x, y) = src.fill_buf(request)?;
-            is_eof = is_eof && x;
+            if x {
+                eof_len = std::cmp::min(eof_len, y);
+            }
             len = std::cmp::min(len, y);
         }
 
+        // the zipped stream ends at the end of the shortest source
+        let is_eof = len == eof_len;
+
         // teardown
         let len = (len / self.word_size) * self.word_size;
 
-- 
2.43.0


From 262675f583dc36df199c7d0cf0b2c0f25c6eaea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:08 +0000
Subject: [PATCH 21/59] fix: text inputs were padded before being parsed in
 --cat N and --zip N

---
 src/pipeline.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/pipeline.rs b/src/pipeline.rs
index d097bbc..a2b2047 100644
--- a/src/pipeline.rs
+++ b/src/pipeline.rs
@@ -330,10 +330,13 @@ impl Pipeline {
     }
 
     fn build_parser(&self, source: Box<dyn Read + Send>) -> Box<dyn ByteStream> {
-        let source = Box::new(RawStream::new(source, self.word_size, self.filler));
         if self.in_format.is_binary() {
-            source
-        } else if self.in_format.is_gapless() {
+            return Box::new(RawStream::new(source, self.word_size, self.filler));
+        }
+
+        // text must not be padded; it's the decoded stream that is aligned to the word size
+        let source = Box::new(RawStream::new(source, 1, self.filler));
+        if self.in_format.is_gapless() {
             Box::new(GaplessTextStream::new(source, self.word_size, self.filler, &self.in_format))
         } else {
             Box::new(TextStream::new(source, self.word_size, self.filler, &self.in_format))
-- 
2.43.0


From fbb87c7da747721f1e20f15c8e194193e1cec4cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:08 +0000
Subject: [PATCH 22/59] fix: write errors on the last line of the output were
 ignored

---
 src/main.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index 35ae6de..916e404 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -232,5 +232,7 @@ fn consume_stream(stream: Box<dyn ByteStream>, drain: Box<dyn Write>) -> Result<
         stream.consume(bytes);
     }
 
+    // make sure that errors on the last bytes are not lost
+    drain.flush()?;
     Ok(())
 }
-- 
2.43.0


From 56bfc0a57a35599ca47b44facaeaa963cb4c1539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:42 +0000
Subject: [PATCH 23/59] fix: slices whose output template is rendered into ''
 or '-' were not dumped to stdout

---
 src/drain/scatter.rs | 35 +++++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/src/drain/scatter.rs b/src/drain/scatter.rs
index b7b3236..a6ddfda 100644
--- a/src/drain/scatter.rs
+++ b/src/drain/scatter.rs
@@ -49,7 +49,7 @@ impl ScatterContext {
         })
     }
 
-    fn dump_segment(&mut self, buf: &[u8], offset: usize, line: usize) -> Result<()> {
+    fn dump_segment(&mut self, buf: &[u8], offset: usize, line: usize, stdout: &mut Vec<u8>) -> Result<()> {
         match &mut self.drain {
             Drain::File(file) => file.write_all(buf)?,
             Drain::Template(template) => {
@@ -59,6 +59,12 @@ impl ScatterContext {
                     _ => 0,
                 })?;
 
+                // an empty name and "-" are treated as stdout
+                if file.is_empty() || file == "-" {
+                    stdout.extend_from_slice(buf);
+                    return Ok(());
+                }
+
                 let mut file = if self.files.get(&file).is_some() {
                     OpenOptions::new().read(false).write(true).append(true).open(file)?
                 } else {
@@ -141,21 +147,20 @@ impl ScatterDrain {
         })
     }
 
-    fn fill_buf_impl_scatter(&mut self) -> Result<(bool, usize)> {
-        loop {
-            let (is_eof, bytes, count, max_consume) = self.src.fill_segment_buf()?;
-            if is_eof && bytes == 0 {
-                return Ok((true, 0));
-            }
+    fn fill_buf_impl_scatter(&mut self, request: usize) -> Result<(bool, usize)> {
+        self.drain.fill_buf(request, |_, buf| {
+            let (is_eof, _, count, max_consume) = self.src.fill_segment_buf()?;
 
             let (stream, segments) = self.src.as_slices();
             for (i, s) in segments[self.src_consumed..count].windows(1).enumerate() {
                 self.buf.clear();
                 self.formatter.format_segments(self.offset, stream, s, &mut self.buf);
-                self.file
-                    .as_mut()
-                    .unwrap()
-                    .dump_segment(&self.buf, self.offset + s[0].pos, self.lines + self.src_consumed + i)?;
+                self.file.as_mut().unwrap().dump_segment(
+                    &self.buf,
+                    self.offset + s[0].pos,
+                    self.lines + self.src_consumed + i,
+                    buf,
+                )?;
             }
             self.src_consumed = count;
 
@@ -164,15 +169,17 @@ impl ScatterDrain {
             self.src_consumed -= count;
             self.offset += bytes;
             self.lines += count;
-        }
+
+            Ok(is_eof)
+        })
     }
 }
 
 impl ByteStream for ScatterDrain {
     fn fill_buf(&mut self, request: usize) -> Result<(bool, usize)> {
         if self.file.is_some() {
-            // this consumes everything
-            self.fill_buf_impl_scatter()
+            // only the slices whose destination is stdout are left in the buffer
+            self.fill_buf_impl_scatter(request)
         } else {
             self.fill_buf_impl_through(request)
         }
-- 
2.43.0


From 1b8d772f8fb393b214014dfccd058ecec81dbdab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:01 +0000
Subject: [PATCH 24/59] fix: remove the temporary file if an error occurs in
 --inplace

---
 src/main.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 916e404..260cde3 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -160,13 +160,16 @@ fn main_impl(command: &mut clap::Command) -> Result<()> {
         for input in inputs.windows(1) {
             let sources = build_sources(input)?;
 
+            let stream = pipeline.spawn_stream(sources)?;
+
             let tmpfile = format!("{}.tmp", &input[0]);
             let drain = Box::new(File::create(&tmpfile)?);
 
-            let stream = pipeline.spawn_stream(sources)?;
-            consume_stream(stream, drain)?;
-
-            std::fs::rename(&tmpfile, &input[0])?;
+            let ret = consume_stream(stream, drain).and_then(|_| Ok(std::fs::rename(&tmpfile, &input[0])?));
+            if ret.is_err() {
+                let _ = std::fs::remove_file(&tmpfile);
+                return ret;
+            }
         }
     } else {
         let inputs = if args.inputs.is_empty() {
-- 
2.43.0


From e545a3af9cf9a78b280a9cb7b197d19b809aa0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:26 +0000
Subject: [PATCH 25/59] fix: --inplace overwrote existing .tmp files and lost
 the file permissions

---
 src/main.rs | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 260cde3..d3d1156 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -12,7 +12,7 @@ mod text;
 
 use anyhow::{anyhow, Context, Result};
 use clap::{ColorChoice, CommandFactory, FromArgMatches, Parser};
-use std::fs::File;
+use std::fs::{File, OpenOptions};
 use std::io::{IsTerminal, Read, Write};
 use std::process::{Child, Stdio};
 
@@ -162,10 +162,9 @@ fn main_impl(command: &mut clap::Command) -> Result<()> {
 
             let stream = pipeline.spawn_stream(sources)?;
 
-            let tmpfile = format!("{}.tmp", &input[0]);
-            let drain = Box::new(File::create(&tmpfile)?);
+            let (tmpfile, drain) = create_tmpfile(&input[0])?;
 
-            let ret = consume_stream(stream, drain).and_then(|_| Ok(std::fs::rename(&tmpfile, &input[0])?));
+            let ret = consume_stream(stream, Box::new(drain)).and_then(|_| Ok(std::fs::rename(&tmpfile, &input[0])?));
             if ret.is_err() {
                 let _ = std::fs::remove_file(&tmpfile);
                 return ret;
@@ -192,6 +191,26 @@ fn main_impl(command: &mut clap::Command) -> Result<()> {
     Ok(())
 }
 
+// creates an empty file next to the input file, with the same permissions as the input file
+fn create_tmpfile(input: &str) -> Result<(String, File)> {
+    let permissions = std::fs::metadata(input)?.permissions();
+
+    // never overwrite existing files
+    let mut tmpfile = format!("{input}.tmp");
+    let file = loop {
+        match OpenOptions::new().write(true).create_new(true).open(&tmpfile) {
+            Err(e) if e.kind() == std::io::ErrorKind::AlreadyExists => tmpfile.push('~'),
+            file => break file?,
+        }
+    };
+
+    if let Err(e) = file.set_permissions(permissions) {
+        let _ = std::fs::remove_file(&tmpfile);
+        return Err(e.into());
+    }
+    Ok((tmpfile, file))
+}
+
 fn build_sources(files: &[String]) -> Result<Vec<Box<dyn Read + Send>>> {
     let mut v: Vec<Box<dyn Read + Send>> = Vec::new();
     for file in files.iter() {
-- 
2.43.0


From bd6792129bfbb42ebadc5a883b8e07d1232e5e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:26 +0000
Subject: [PATCH 26/59] fix: --inplace with --output FILE emptied the input
 file

---
 src/pipeline.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pipeline.rs b/src/pipeline.rs
index a2b2047..4ad09a7 100644
--- a/src/pipeline.rs
+++ b/src/pipeline.rs
@@ -268,6 +268,11 @@ impl Pipeline {
         };
         nodes.push(node);
 
+        // there is nothing to write back if the slices go to another file
+        if m.inplace && !written_back && m.patch_back.is_none() {
+            return Err(anyhow!("--inplace can't be combined with --output to files."));
+        }
+
         // special handling for input / output formats
         let default_in_signature = "b";
         let default_out_signature = if m.inplace && written_back { "b" } else { "xxx" };
-- 
2.43.0


From ca72dcbeea1393c04e14340f0c91d92855469b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:26 +0000
Subject: [PATCH 27/59] fix: panicked when PAGER is empty

---
 src/main.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/main.rs b/src/main.rs
index d3d1156..a30c078 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -226,6 +226,7 @@ fn build_sources(files: &[String]) -> Result<Vec<Box<dyn Read + Send>>> {
 
 fn build_drain(pager: &Option<String>) -> Result<(Option<Child>, Box<dyn Write>)> {
     let pager = pager.clone().or_else(|| std::env::var("PAGER").ok());
+    let pager = pager.filter(|x| !x.trim().is_empty());
     if pager.is_none() && !std::io::stdout().is_terminal() {
         return Ok((None, Box::new(std::io::stdout())));
     }
-- 
2.43.0


From 128a82497f325058dcd8bc1b357cf3179135504c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:26 +0000
Subject: [PATCH 28/59] fix: --patch-back ignored --out-format

---
 src/drain/patch.rs | 12 +++++++++---
 src/pipeline.rs    |  2 +-
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/drain/patch.rs b/src/drain/patch.rs
index 336d944..a91abe2 100644
--- a/src/drain/patch.rs
+++ b/src/drain/patch.rs
@@ -58,10 +58,16 @@ pub struct PatchDrain {
 }
 
 impl PatchDrain {
-    pub fn new(patch: Box<dyn SegmentStream>, original: Box<dyn ByteStream>, command: &str, format: &InoutFormat) -> Self {
+    pub fn new(
+        patch: Box<dyn SegmentStream>,
+        original: Box<dyn ByteStream>,
+        command: &str,
+        out_format: &InoutFormat,
+        patch_format: &InoutFormat,
+    ) -> Self {
         let mut pipe = BashPipe::new(command);
         let mut writer = pipe.spawn_writer();
-        let formatter = TextFormatter::new(format, (0, 0));
+        let formatter = TextFormatter::new(out_format, (0, 0));
 
         let thread = std::thread::spawn(move || {
             let mut patch = patch;
@@ -104,7 +110,7 @@ impl PatchDrain {
         });
 
         let reader = pipe.spawn_reader();
-        let patch = PatchStream::new(original, Box::new(reader), format);
+        let patch = PatchStream::new(original, Box::new(reader), patch_format);
 
         PatchDrain {
             patch: Some(patch),
diff --git a/src/pipeline.rs b/src/pipeline.rs
index 4ad09a7..39b90bc 100644
--- a/src/pipeline.rs
+++ b/src/pipeline.rs
@@ -428,7 +428,7 @@ impl Pipeline {
                     (cache, NodeInstance::Byte(next))
                 }
                 (PatchBack(command), NodeInstance::Segment(prev)) => {
-                    let next = Box::new(PatchDrain::new(prev, cache.unwrap(), command, &self.patch_format));
+                    let next = Box::new(PatchDrain::new(prev, cache.unwrap(), command, &self.out_format, &self.patch_format));
                     (None, NodeInstance::Byte(next))
                 }
                 (next, _) => return Err(anyhow!("unallowed node {:?} found after (internal error)", next)),
-- 
2.43.0


From 0abafd2061b289ba311f2657714bdbcc538d1a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:42 +0000
Subject: [PATCH 29/59] fix: padding longer than the block size didn't satisfy
 longer requests

---
 src/byte/zero.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/byte/zero.rs b/src/byte/zero.rs
index e82acba..920861b 100644
--- a/src/byte/zero.rs
+++ b/src/byte/zero.rs
@@ -30,14 +30,14 @@ impl ZeroStream {
 }
 
 impl ByteStream for ZeroStream {
-    fn fill_buf(&mut self, _: usize) -> Result<(bool, usize)> {
+    fn fill_buf(&mut self, request: usize) -> Result<(bool, usize)> {
         if self.offset >= self.len {
             self.next_len = 0;
             return Ok((true, 0));
         }
 
-        // TODO: we need this
-        // self.next_len = std::cmp::max(self.next_len, request);
+        let request = std::cmp::min(request, self.len - self.offset);
+        self.next_len = std::cmp::max(self.next_len, request);
         self.buf.resize(self.next_len + MARGIN_SIZE, self.filler);
 
         let is_eof = self.len <= self.offset + self.next_len;
-- 
2.43.0


From 538019e924506c75a3314405d045b92d9ecd7234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:35 +0000
Subject: [PATCH 30/59] fix: --width emitted extra slices after short reads
 when the mapped end precedes the slice

---
 src/segment/stride.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/segment/stride.rs b/src/segment/stride.rs
index f41f0d4..f1482b9 100644
--- a/src/segment/stride.rs
+++ b/src/segment/stride.rs
@@ -319,8 +319,9 @@ impl ConstSegments {
             return self.update_lend_state(next_tail, len, self.segments.len());
         }
 
-        let n_extra = self.count_segments(next_tail.saturating_sub(len + self.pitch));
-        // let n_extra = std::cmp::min(self.segments.len(), n_extra);
+        // hide the segments whose tail (including the margin) is not in the buffer yet
+        let n_extra = self.count_segments((next_tail + self.tail_reserved_bytes).saturating_sub(len + 2 * self.pitch));
+        let n_extra = std::cmp::min(self.segments.len(), n_extra);
 
         let next_tail = next_tail - n_extra * self.pitch;
         let count = self.segments.len() - n_extra;
-- 
2.43.0


From e73c729e3e49c3be55403b1964022f6c5b3f00dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:35 +0000
Subject: [PATCH 31/59] fix: records longer than the read buffer were rejected
 when the array was split in the middle of an element

---
 src/text/parser/mod.rs | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/text/parser/mod.rs b/src/text/parser/mod.rs
index 2f36c5d..2b32ef7 100644
--- a/src/text/parser/mod.rs
+++ b/src/text/parser/mod.rs
@@ -390,7 +390,14 @@ impl TextParser {
         Some((fwd1 + fwd2 + 1, offset as usize, span as usize))
     }
 
-    fn read_body(&self, stream: &[u8], len: usize, is_in_tail: bool, buf: &mut Vec<u8>) -> Option<(usize, bool, bool, bool)> {
+    fn read_body(
+        &self,
+        stream: &[u8],
+        len: usize,
+        is_eof: bool,
+        is_in_tail: bool,
+        buf: &mut Vec<u8>,
+    ) -> Option<(usize, bool, bool, bool)> {
         debug_assert!(stream.len() >= len + MARGIN_SIZE);
 
         let mut stream = stream;
@@ -417,15 +424,15 @@ impl TextParser {
         if rem_len > 0 {
             // tail
             debug_assert!(rem_len < 4 * 48);
+            let base = buf.len();
             let ret = buf.fill_uninit_on_option_with_ret(4 * 16, |arr| (self.parse_body)(is_in_tail, stream, arr))?;
             let (scanned, parsed) = ret.0;
 
-            if parsed > rem_len {
+            // the array continues to the next chunk; the last element might be cut at the tail
+            if parsed > rem_len || (!is_eof && !is_in_tail && parsed == rem_len) {
                 debug_assert!(!is_in_tail);
-                let total = (len + parsed - rem_len) / 3;
-                let keep = len / 3;
-                buf.truncate(buf.len() + keep - total);
-                return Some((keep * 3, false, false, true));
+                buf.truncate(base + rem_len / 3);
+                return Some((len / 3 * 3, false, false, true));
             }
 
             debug_assert!(!is_in_tail || parsed == 0);
@@ -447,7 +454,7 @@ impl TextParser {
         let mut is_in_tail = is_in_tail;
         while rem_len > 0 {
             let (fwd, delim_found, eol_found, refeed) = self
-                .read_body(stream, rem_len, is_in_tail, buf)
+                .read_body(stream, rem_len, is_eof, is_in_tail, buf)
                 .with_context(|| format!("failed to parse array at {}", &self.cache.format(false)))?;
             rem_len -= fwd;
             is_in_tail = delim_found;
@@ -508,7 +515,7 @@ impl TextParser {
         let mut is_in_tail = false;
         while rem_len > 0 {
             let (fwd, delim_found, eol_found, refeed) = self
-                .read_body(stream, rem_len, is_in_tail, buf)
+                .read_body(stream, rem_len, is_eof, is_in_tail, buf)
                 .with_context(|| format!("failed to parse array at {}", &self.cache.format(false)))?;
 
             rem_len -= fwd;
-- 
2.43.0


From abbe177719fc7e9e3c0cd264b0fbe0f9c6fc61e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:35 +0000
Subject: [PATCH 32/59] fix: --width segments got hidden after they had been
 returned when the read was short

---
 src/segment/stride.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/segment/stride.rs b/src/segment/stride.rs
index f1482b9..869062b 100644
--- a/src/segment/stride.rs
+++ b/src/segment/stride.rs
@@ -320,7 +320,7 @@ impl ConstSegments {
         }
 
         // hide the segments whose tail (including the margin) is not in the buffer yet
-        let n_extra = self.count_segments((next_tail + self.tail_reserved_bytes).saturating_sub(len + 2 * self.pitch));
+        let n_extra = self.count_segments((next_tail + self.tail_reserved_bytes).saturating_sub(len + self.pitch));
         let n_extra = std::cmp::min(self.segments.len(), n_extra);
 
         let next_tail = next_tail - n_extra * self.pitch;
-- 
2.43.0


From 8e0e828e566c64a8b191785cd34376f6f63ed570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:35 +0000
Subject: [PATCH 33/59] fix: a zero-length guide record at the end of the
 stream was sliced out depending on the chunk boundary

---
 src/segment/guided.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/segment/guided.rs b/src/segment/guided.rs
index ea7c38a..ebe65e0 100644
--- a/src/segment/guided.rs
+++ b/src/segment/guided.rs
@@ -66,14 +66,14 @@ impl GuidedSlicer {
             };
 
             // leave the guide for the next call if the slice is not covered by the current chunk
-            if !is_eof && offset + span > tail {
+            if !is_eof && (offset >= tail || offset + span > tail) {
                 self.max_consume = std::cmp::min(bytes, offset - self.src_consumed);
                 break;
             }
             self.next = None;
 
             // slice the stream out by the guide, clipped at the tail of the stream
-            if offset < tail || !is_eof {
+            if offset < tail {
                 self.segments.push(Segment {
                     pos: offset - self.src_consumed,
                     len: std::cmp::min(span, tail - offset),
@@ -86,7 +86,7 @@ impl GuidedSlicer {
 
 impl SegmentStream for GuidedSlicer {
     fn fill_segment_buf(&mut self) -> Result<(bool, usize, usize, usize)> {
-        let next_tail = self.next.map_or(0, |(offset, span)| offset + span - self.src_consumed);
+        let next_tail = self.next.map_or(0, |(offset, span)| offset + span + 1 - self.src_consumed);
         let request = std::cmp::max(BLOCK_SIZE, next_tail);
         let (is_eof, bytes) = self.src.fill_buf(request)?;
 
-- 
2.43.0


From 662a65aa2c157308cd4cc287df747376a620e38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:35 +0000
Subject: [PATCH 34/59] fix: --extend emitted unsorted or out-of-buffer slices
 with multiple mappers or large offsets

---
 src/segment/extend.rs | 111 +++++++++++++++++++-----------------------
 1 file changed, 50 insertions(+), 61 deletions(-)

diff --git a/src/segment/extend.rs b/src/segment/extend.rs
index d883212..9a5bbef 100644
--- a/src/segment/extend.rs
+++ b/src/segment/extend.rs
@@ -9,34 +9,27 @@ use std::collections::BinaryHeap;
 
 #[derive(Debug, PartialEq, Eq, PartialOrd, Ord, Copy, Clone)]
 struct SorterElement {
-    pos: usize,
+    pos: usize, // absolute position from the head of the stream
     len: usize,
-    original_end: usize,
-}
-
-impl From<SorterElement> for Segment {
-    fn from(elem: SorterElement) -> Segment {
-        Segment {
-            pos: elem.pos,
-            len: elem.len,
-        }
-    }
 }
 
 pub struct ExtendStream {
     src: Box<dyn SegmentStream>,
     segments: Vec<Segment>,
 
-    // sorter; needed to reorder the segments when the start positions of the mapped
-    // segments are derived from the end positions of the source segments
+    // sorter; keeps the mapped segments until it's certain that no preceding segment
+    // comes from the source, and all of their bytes are in the buffer
     sorter: BinaryHeap<Reverse<SorterElement>>,
 
+    // #bytes consumed so far
+    src_consumed: usize,
+
     // #segments that are not consumed in the source but already accumulated to `acc`
     // note: not the count from the beginning of the source stream
     src_scanned: usize,
 
     // the number of bytes that can be consumed at most in this slicer. is computed
-    // from the `last_end` so that the next any segment overlaps with the cosumable range
+    // so that it doesn't go beyond the heads of the segments that are not emitted yet
     max_consume: usize,
 
     mappers: Vec<SegmentMapper>,
@@ -57,61 +50,51 @@ impl ExtendStream {
             src,
             segments: Vec::new(),
             sorter: BinaryHeap::new(),
+            src_consumed: 0,
             src_scanned: 0,
             max_consume: 0,
             mappers,
         })
     }
 
-    fn update_max_consume(&mut self, is_eof: bool, bytes: usize, max_consume: usize) {
+    // lower bound of the start positions of the segments to be mapped in the next iterations
+    fn lower_bound(&self, count: usize, max_consume: usize) -> usize {
+        let (_, segments) = self.src.as_slices();
+        let last = segments[..count].last().map_or(0, |x| x.pos);
+
+        let next = std::cmp::max(last, max_consume) as isize;
+        let phantom = [next, next];
+
+        let bound = self.mappers.iter().map(|m| m.evaluate(&phantom, &phantom).0).min().unwrap_or(0);
+        std::cmp::max(0, bound) as usize
+    }
+
+    fn update_max_consume(&mut self, is_eof: bool, bytes: usize, bound: usize, max_consume: usize) {
         if is_eof {
             self.max_consume = bytes;
             return;
         }
 
-        let max_consume = max_consume as isize;
-        let phantom = [max_consume, max_consume + 1];
-
-        let eval_phantom = |m: &SegmentMapper| {
-            let (start, end) = m.evaluate(&phantom, &phantom);
-            std::cmp::min(start, end)
-        };
-        let max_consume = self.mappers.iter().map(eval_phantom).min().unwrap_or(0);
-        let max_consume = std::cmp::max(0, max_consume) as usize;
-
-        self.max_consume = max_consume;
+        let head = self.sorter.peek().map_or(usize::MAX, |x| x.0.pos - self.src_consumed);
+        self.max_consume = max_consume.min(bound).min(head);
     }
 
-    fn extend_segment_buf(&mut self, is_eof: bool, count: usize, bytes: usize) {
-        let tail = if is_eof { bytes } else { usize::MAX };
-
-        let map_segment = |m: &SegmentMapper, segment: &Segment| -> Option<SorterElement> {
-            let s = [segment.pos as isize, segment.tail() as isize];
-            let (start, end) = m.evaluate(&s, &s);
-
-            let start = (start.max(0) as usize).min(tail);
-            let end = (end.max(0) as usize).min(tail);
-
-            // record the segment
-            if start < end {
-                Some(SorterElement {
-                    pos: start,
-                    len: end - start,
-                    original_end: segment.tail(),
-                })
-            } else {
-                None
-            }
-        };
-
+    fn extend_segment_buf(&mut self, is_eof: bool, count: usize, bytes: usize, bound: usize) {
         let (_, segments) = self.src.as_slices();
 
-        // first map all the source segment pairs with `mappers`
+        // first map all the source segments with `mappers`
         debug_assert!(count >= self.src_scanned);
         for next in &segments[self.src_scanned..count] {
+            let s = [next.pos as isize, next.tail() as isize];
             for mapper in &self.mappers {
-                if let Some(s) = map_segment(mapper, next) {
-                    self.sorter.push(Reverse(s));
+                let (start, end) = mapper.evaluate(&s, &s);
+                let (start, end) = (start.max(0) as usize, end.max(0) as usize);
+
+                if start < end {
+                    self.sorter.push(Reverse(SorterElement {
+                        pos: start + self.src_consumed,
+                        len: end - start,
+                    }));
                 }
             }
         }
@@ -120,12 +103,19 @@ impl ExtendStream {
         self.src_scanned = count;
 
         // then sort the mapped segments into `self.segments` array
-        let tail = if is_eof { usize::MAX } else { bytes };
         while let Some(&Reverse(s)) = self.sorter.peek() {
-            debug_assert!(s.original_end <= tail);
+            let pos = s.pos - self.src_consumed;
+            let tail = pos + s.len;
+            if !is_eof && (pos >= bound || tail > bytes) {
+                break;
+            }
+            self.sorter.pop();
 
-            let s = self.sorter.pop().unwrap().0;
-            self.segments.push(s.into());
+            // clip the segment at the tail of the stream
+            let tail = std::cmp::min(tail, bytes);
+            if pos < tail {
+                self.segments.push(Segment { pos, len: tail - pos });
+            }
         }
     }
 }
@@ -133,13 +123,11 @@ impl ExtendStream {
 impl SegmentStream for ExtendStream {
     fn fill_segment_buf(&mut self) -> Result<(bool, usize, usize, usize)> {
         let (is_eof, bytes, count, max_consume) = self.src.fill_segment_buf()?;
-        self.extend_segment_buf(is_eof, count, bytes);
-
-        // update max_consume
-        self.update_max_consume(is_eof, bytes, max_consume);
-        let max_consume = std::cmp::min(max_consume, self.max_consume);
+        let bound = self.lower_bound(count, max_consume);
+        self.extend_segment_buf(is_eof, count, bytes, bound);
+        self.update_max_consume(is_eof, bytes, bound, max_consume);
 
-        Ok((is_eof, bytes, self.segments.len(), max_consume))
+        Ok((is_eof, bytes, self.segments.len(), self.max_consume))
     }
 
     fn as_slices(&self) -> (&[u8], &[Segment]) {
@@ -161,6 +149,7 @@ impl SegmentStream for ExtendStream {
         for s in &mut self.segments {
             s.pos -= bytes;
         }
+        self.src_consumed += bytes;
         self.max_consume -= bytes;
 
         Ok((bytes, from))
-- 
2.43.0


From 9a091add439cd028c7e5603287e99e09d1d1c46a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:35 +0000
Subject: [PATCH 35/59] fix: --invert emitted unsorted or out-of-buffer slices
 with multiple mappers or large offsets

---
 src/segment/bridge.rs | 143 +++++++++++++++++++++++-------------------
 1 file changed, 80 insertions(+), 63 deletions(-)

diff --git a/src/segment/bridge.rs b/src/segment/bridge.rs
index 58b0232..f049e25 100644
--- a/src/segment/bridge.rs
+++ b/src/segment/bridge.rs
@@ -4,11 +4,26 @@
 use super::{Segment, SegmentStream};
 use crate::mapper::SegmentMapper;
 use anyhow::{anyhow, Result};
+use std::cmp::Reverse;
+use std::collections::BinaryHeap;
+
+#[derive(Debug, PartialEq, Eq, PartialOrd, Ord, Copy, Clone)]
+struct SorterElement {
+    pos: usize, // absolute position from the head of the stream
+    len: usize,
+}
 
 pub struct BridgeStream {
     src: Box<dyn SegmentStream>,
     segments: Vec<Segment>,
 
+    // sorter; keeps the mapped segments until it's certain that no preceding segment
+    // comes from the source, and all of their bytes are in the buffer
+    sorter: BinaryHeap<Reverse<SorterElement>>,
+
+    // #bytes consumed so far
+    src_consumed: usize,
+
     // #segments that are not consumed in the source but already accumulated to `acc`
     // note: not the count from the beginning of the source stream
     src_scanned: usize,
@@ -17,7 +32,7 @@ pub struct BridgeStream {
     last_end: isize,
 
     // the number of bytes that can be consumed at most in this slicer. is computed
-    // from the `last_end` so that the next any segment overlaps with the cosumable range
+    // so that it doesn't go beyond the heads of the segments that are not emitted yet
     max_consume: usize,
 
     mappers: Vec<SegmentMapper>,
@@ -37,6 +52,8 @@ impl BridgeStream {
         Ok(BridgeStream {
             src,
             segments: Vec::new(),
+            sorter: BinaryHeap::new(),
+            src_consumed: 0,
             src_scanned: 0,
             last_end: 0,
             max_consume: 0,
@@ -44,96 +61,95 @@ impl BridgeStream {
         })
     }
 
-    fn update_max_consume(&mut self, is_eof: bool, bytes: usize) {
+    // lower bound of the start positions of the segments to be mapped in the next iterations
+    fn lower_bound(&self, count: usize, max_consume: usize) -> usize {
+        let (_, segments) = self.src.as_slices();
+        let last = segments[..count].last().map_or(0, |x| x.pos);
+
+        // the next gap starts at `last_end` or after it, and ends at the head of one of the next segments
+        let next = std::cmp::max(last, max_consume) as isize;
+        let phantom = [self.last_end, std::cmp::max(self.last_end, next)];
+
+        let bound = self.mappers.iter().map(|m| m.evaluate(&phantom, &phantom).0).min().unwrap_or(0);
+        std::cmp::max(0, bound) as usize
+    }
+
+    fn update_max_consume(&mut self, is_eof: bool, bytes: usize, bound: usize, max_consume: usize) {
         if is_eof {
             self.max_consume = bytes;
             return;
         }
 
-        let phantom = [self.last_end, self.last_end + 1];
-
-        let eval_phantom = |m: &SegmentMapper| {
-            let (start, end) = m.evaluate(&phantom, &phantom);
-            std::cmp::min(start, end)
-        };
-        let max_consume = self.mappers.iter().map(eval_phantom).min().unwrap_or(0);
-        let max_consume = std::cmp::max(0, max_consume) as usize;
-
-        self.max_consume = max_consume;
+        let head = self.sorter.peek().map_or(usize::MAX, |x| x.0.pos - self.src_consumed);
+        self.max_consume = max_consume.min(bound).min(head);
     }
 
-    fn extend_segment_buf(&mut self, is_eof: bool, count: usize, bytes: usize) {
-        let tail = if is_eof { bytes } else { usize::MAX };
+    fn map_gap(&mut self, gap: &[isize; 2]) {
+        for mapper in &self.mappers {
+            let (start, end) = mapper.evaluate(gap, gap);
+            let (start, end) = (start.max(0) as usize, end.max(0) as usize);
 
-        let map_segment = |m: &SegmentMapper, gap: &[isize; 2]| -> Option<Segment> {
-            let (start, end) = m.evaluate(gap, gap);
-
-            let start = (start.max(0) as usize).min(tail);
-            let end = (end.max(0) as usize).min(tail);
-
-            // record the segment
             if start < end {
-                Some(Segment {
-                    pos: start,
+                self.sorter.push(Reverse(SorterElement {
+                    pos: start + self.src_consumed,
                     len: end - start,
-                })
-            } else {
-                None
+                }));
             }
-        };
+        }
+    }
 
-        let (_, segments) = self.src.as_slices();
+    fn scan_segments(&mut self, is_eof: bool, count: usize, bytes: usize) {
+        // first map all the gaps between the source segments with `mappers`
+        for i in self.src_scanned..count {
+            let next = self.src.as_slices().1[i];
+            let curr_start = next.pos as isize;
+            let curr_end = next.tail() as isize;
 
-        // first map all the source segment pairs with `mappers`
-        let mut prev_end = self.last_end;
-        if count > self.src_scanned {
-            for &next in &segments[self.src_scanned..count] {
-                // skip if there's no gap between the two segments
-                let curr_start = next.pos as isize;
-                let curr_end = next.tail() as isize;
-                if prev_end >= curr_start {
-                    prev_end = std::cmp::max(prev_end, curr_end);
-                    continue;
-                }
-
-                // map the gap then clip
-                for mapper in &self.mappers {
-                    if let Some(s) = map_segment(mapper, &[prev_end, curr_start]) {
-                        self.segments.push(s);
-                    }
-                }
-                prev_end = std::cmp::max(prev_end, curr_end);
+            // skip if there's no gap between the two segments
+            if self.last_end < curr_start {
+                self.map_gap(&[self.last_end, curr_start]);
             }
+            self.last_end = std::cmp::max(self.last_end, curr_end);
         }
+        self.src_scanned = count;
 
         // push the last segment if EOF
-        if is_eof && prev_end < bytes as isize {
-            let bytes = bytes as isize;
+        let bytes = bytes as isize;
+        if is_eof && self.last_end < bytes {
+            self.map_gap(&[self.last_end, bytes]);
+            self.last_end = bytes;
+        }
+    }
 
-            for mapper in &self.mappers {
-                if let Some(s) = map_segment(mapper, &[prev_end, bytes]) {
-                    self.segments.push(s);
-                }
+    fn extend_segment_buf(&mut self, is_eof: bool, bytes: usize, bound: usize) {
+        // sort the mapped segments into `self.segments` array
+        while let Some(&Reverse(s)) = self.sorter.peek() {
+            let pos = s.pos - self.src_consumed;
+            let tail = pos + s.len;
+            if !is_eof && (pos >= bound || tail > bytes) {
+                break;
             }
-            prev_end = bytes;
-        }
+            self.sorter.pop();
 
-        // all source segments are mapped; save the source-scanning states
-        self.last_end = prev_end;
-        self.src_scanned = count;
+            // clip the segment at the tail of the stream
+            let tail = std::cmp::min(tail, bytes);
+            if pos < tail {
+                self.segments.push(Segment { pos, len: tail - pos });
+            }
+        }
     }
 }
 
 impl SegmentStream for BridgeStream {
     fn fill_segment_buf(&mut self) -> Result<(bool, usize, usize, usize)> {
         let (is_eof, bytes, count, max_consume) = self.src.fill_segment_buf()?;
-        self.extend_segment_buf(is_eof, count, bytes);
+        self.scan_segments(is_eof, count, bytes);
 
-        // update max_consume
-        self.update_max_consume(is_eof, bytes);
-        let max_consume = std::cmp::min(max_consume, self.max_consume);
+        let bound = self.lower_bound(count, max_consume);
+        self.extend_segment_buf(is_eof, bytes, bound);
+        self.update_max_consume(is_eof, bytes, bound, max_consume);
 
-        Ok((is_eof, bytes, self.segments.len(), max_consume))
+        Ok((is_eof, bytes, self.segments.len(), self.max_consume))
     }
 
     fn as_slices(&self) -> (&[u8], &[Segment]) {
@@ -155,6 +171,7 @@ impl SegmentStream for BridgeStream {
         for s in &mut self.segments {
             s.pos -= bytes;
         }
+        self.src_consumed += bytes;
         self.last_end -= bytes as isize;
         self.max_consume -= bytes;
 
-- 
2.43.0


From 32fe1345595e386d892882f28cdc124245840992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:35 +0000
Subject: [PATCH 36/59] fix: --merge panicked on zero-length slices and stalled
 with an empty accumulator

---
 src/segment/merge.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/segment/merge.rs b/src/segment/merge.rs
index e142127..8d5ff30 100644
--- a/src/segment/merge.rs
+++ b/src/segment/merge.rs
@@ -34,7 +34,7 @@ impl Accumulator {
     fn pop(&mut self) -> Segment {
         let pos = self.start;
         let tail = self.end;
-        debug_assert!(pos < tail);
+        debug_assert!(pos <= tail);
 
         // clear the current state
         self.count = 0;
@@ -138,7 +138,7 @@ impl MergeStream {
             self.max_consume = bytes;
             return;
         }
-        if max_consume <= self.acc.furthest_margable_pos() {
+        if self.acc.count > 0 && max_consume <= self.acc.furthest_margable_pos() {
             self.max_consume = self.acc.start;
             return;
         }
-- 
2.43.0


From 7c0ea33b828569a71218874436749c85d3907659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:35 +0000
Subject: [PATCH 37/59] fix: --lines filter lost duplicated slices and panicked
 on early EOF

---
 src/segment/filter.rs | 36 ++++++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/src/segment/filter.rs b/src/segment/filter.rs
index 7c7ddae..14fcd26 100644
--- a/src/segment/filter.rs
+++ b/src/segment/filter.rs
@@ -101,11 +101,6 @@ impl Cutter {
             }
         }
 
-        if is_eof {
-            v.sort_by_key(|x| (x.pos, x.len));
-            v.dedup();
-        }
-
         let scanned = std::cmp::max(scan_upto, scanned);
         Ok(scanned)
     }
@@ -118,6 +113,11 @@ pub struct FilterStream {
     max_consume: usize,  // in #bytes
     segments: Vec<Segment>,
     cutter: Cutter,
+
+    // becomes true when no more segment comes out. we don't touch the source any more
+    // and count #bytes consumed after that in `offset`
+    is_done: bool,
+    offset: usize,
 }
 
 impl FilterStream {
@@ -129,12 +129,18 @@ impl FilterStream {
             max_consume: 0,
             segments: Vec::new(),
             cutter: Cutter::from_str(exprs)?,
+            is_done: false,
+            offset: 0,
         })
     }
 }
 
 impl SegmentStream for FilterStream {
     fn fill_segment_buf(&mut self) -> Result<(bool, usize, usize, usize)> {
+        if self.is_done {
+            return Ok((true, self.max_consume, self.segments.len(), self.max_consume));
+        }
+
         let (is_eof, bytes, count, max_consume) = self.src.fill_segment_buf()?;
         let (_, segments) = self.src.as_slices();
 
@@ -143,8 +149,9 @@ impl SegmentStream for FilterStream {
             .cutter
             .accumulate(self.src_scanned, self.src_consumed, is_eof, count, segments, &mut self.segments)?;
 
-        let (is_eof, bytes) = if self.cutter.is_empty() {
-            let bytes = self.segments.last().map_or(self.max_consume, |x| x.tail());
+        let (is_eof, bytes) = if !is_eof && self.cutter.is_empty() {
+            self.is_done = true;
+            let bytes = self.segments.iter().map(|x| x.tail()).max().unwrap_or(0);
             (true, bytes)
         } else {
             (is_eof, bytes)
@@ -164,14 +171,19 @@ impl SegmentStream for FilterStream {
 
     fn as_slices(&self) -> (&[u8], &[Segment]) {
         let (stream, _) = self.src.as_slices();
-        (stream, &self.segments)
+        (&stream[self.offset..], &self.segments)
     }
 
     fn consume(&mut self, bytes: usize) -> Result<(usize, usize)> {
-        let bytes = std::cmp::min(bytes, self.max_consume);
-        let (bytes, src_count) = self.src.consume(bytes)?;
-        self.src_scanned -= src_count;
-        self.src_consumed += src_count;
+        let mut bytes = std::cmp::min(bytes, self.max_consume);
+        if self.is_done {
+            self.offset += bytes;
+        } else {
+            let (src_bytes, src_count) = self.src.consume(bytes)?;
+            self.src_scanned -= src_count;
+            self.src_consumed += src_count;
+            bytes = src_bytes;
+        }
 
         let from = self.segments.partition_point(|x| x.pos < bytes);
         let to = self.segments.len();
-- 
2.43.0


From 732c4c6f10358454f95231a7730dc5da423bd130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:35 +0000
Subject: [PATCH 38/59] fix: --lines with --invert or --extend truncated the
 slices near the tail

---
 src/pipeline.rs      |  4 +++-
 src/segment/range.rs | 11 ++++++++++-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/pipeline.rs b/src/pipeline.rs
index 39b90bc..75b9c8f 100644
--- a/src/pipeline.rs
+++ b/src/pipeline.rs
@@ -392,7 +392,9 @@ impl Pipeline {
                     (cache, NodeInstance::Segment(next))
                 }
                 (Slice(exprs), NodeInstance::Byte(prev)) => {
-                    let next = Box::new(RangeSlicer::new(prev, exprs)?);
+                    let needs_tail = self.nodes.iter().any(|x| matches!(x, Bridge(_) | Extend(_)));
+                    let next = RangeSlicer::new(prev, exprs)?;
+                    let next = Box::new(if needs_tail { next.keep_tail() } else { next });
                     (cache, NodeInstance::Segment(next))
                 }
                 (Guide(file), NodeInstance::Byte(prev)) => {
diff --git a/src/segment/range.rs b/src/segment/range.rs
index d6f9325..6c87130 100644
--- a/src/segment/range.rs
+++ b/src/segment/range.rs
@@ -105,6 +105,9 @@ pub struct RangeSlicer {
     max_consume: usize,  // in #bytes
     segments: Vec<Segment>,
     cutter: Cutter,
+
+    // stops reading the source at the tail of the last slice
+    clip_tail: bool,
 }
 
 impl RangeSlicer {
@@ -115,8 +118,14 @@ impl RangeSlicer {
             max_consume: 0,
             segments: Vec::new(),
             cutter: Cutter::from_str(exprs)?,
+            clip_tail: true,
         })
     }
+
+    // leaves the bytes after the last slice; needed when the slices are inverted or extended to there
+    pub fn keep_tail(self) -> Self {
+        RangeSlicer { clip_tail: false, ..self }
+    }
 }
 
 impl SegmentStream for RangeSlicer {
@@ -124,7 +133,7 @@ impl SegmentStream for RangeSlicer {
         let (is_eof, bytes) = self.src.fill_buf(BLOCK_SIZE)?;
         let max_consume = self.cutter.accumulate(self.src_consumed, is_eof, bytes, &mut self.segments)?;
 
-        let (is_eof, bytes, max_consume) = if self.cutter.is_empty() {
+        let (is_eof, bytes, max_consume) = if self.clip_tail && self.cutter.is_empty() {
             let bytes = self.segments.last().map_or(self.max_consume, |x| x.tail());
             let max_consume = std::cmp::min(bytes, max_consume);
             (true, bytes, max_consume)
-- 
2.43.0


From 3c0e6f34ca8fc5353cecf2a9a907cbc8acae6a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:33 +0000
Subject: [PATCH 39/59] fix: hex parser dropped malformed or truncated trailing
 elements

---
 src/text/parser/aarch64.rs |  9 +++++++++
 src/text/parser/mod.rs     | 15 +++++++++------
 src/text/parser/naive.rs   |  5 ++++-
 src/text/parser/x86_64.rs  |  9 +++++++++
 4 files changed, 31 insertions(+), 7 deletions(-)

diff --git a/src/text/parser/aarch64.rs b/src/text/parser/aarch64.rs
index c1612d2..e520abd 100644
--- a/src/text/parser/aarch64.rs
+++ b/src/text/parser/aarch64.rs
@@ -207,6 +207,15 @@ pub fn parse_hex_body_neon(is_in_tail: bool, src: &[u8], dst: &mut [u8]) -> Opti
 
             let parse_len = parse_len.min(scan_len);
             parsed += parse_len;
+
+            // parse_multi doesn't see the separator after the last element, nor a truncated element
+            let (n_cols, rem) = (parse_len / 3, parse_len % 3);
+            if rem < 2 && n_cols > 0 && chunk[3 * n_cols - 1] != b' ' {
+                return None;
+            }
+            if rem == 1 && chunk[parse_len - 1] != b' ' {
+                return None;
+            }
             n_elems += parse_multi(x, (parse_len + 1) / 3, &mut dst[n_elems..])?;
 
             if scan_len < 48 {
diff --git a/src/text/parser/mod.rs b/src/text/parser/mod.rs
index 2b32ef7..1e7aa2b 100644
--- a/src/text/parser/mod.rs
+++ b/src/text/parser/mod.rs
@@ -424,17 +424,20 @@ impl TextParser {
         if rem_len > 0 {
             // tail
             debug_assert!(rem_len < 4 * 48);
-            let base = buf.len();
-            let ret = buf.fill_uninit_on_option_with_ret(4 * 16, |arr| (self.parse_body)(is_in_tail, stream, arr))?;
-            let (scanned, parsed) = ret.0;
 
             // the array continues to the next chunk; the last element might be cut at the tail
-            if parsed > rem_len || (!is_eof && !is_in_tail && parsed == rem_len) {
-                debug_assert!(!is_in_tail);
-                buf.truncate(base + rem_len / 3);
+            if !is_eof && !is_in_tail && !stream[..rem_len].iter().any(|&x| x == b'|' || x == b'\n') {
+                let mut tail = [b'\n'; 256];
+                let keep = rem_len / 3 * 3;
+                tail[..keep].copy_from_slice(&stream[..keep]);
+
+                buf.fill_uninit_on_option_with_ret(4 * 16, |arr| (self.parse_body)(false, &tail, arr))?;
                 return Some((len / 3 * 3, false, false, true));
             }
 
+            let ret = buf.fill_uninit_on_option_with_ret(4 * 16, |arr| (self.parse_body)(is_in_tail, stream, arr))?;
+            let (scanned, parsed) = ret.0;
+
             debug_assert!(!is_in_tail || parsed == 0);
             is_in_tail = parsed < rem_len;
 
diff --git a/src/text/parser/naive.rs b/src/text/parser/naive.rs
index 7f76f83..5ca67b3 100644
--- a/src/text/parser/naive.rs
+++ b/src/text/parser/naive.rs
@@ -59,9 +59,12 @@ pub fn parse_hex_body_naive(is_in_tail: bool, src: &[u8], dst: &mut [u8]) -> Opt
 
     let mut n_elems = 0;
     for (i, x) in src[..parse_len.min(scan_len)].chunks(3).enumerate() {
-        if x.len() < 2 || x[0] == b' ' && x[1] == b' ' {
+        if x == b" " || x.starts_with(b"  ") {
             break;
         }
+        if x.len() < 2 {
+            return None; // truncated element
+        }
 
         let is_col_hex = is_valid_hex(x[0]) && is_valid_hex(x[1]);
         let is_sep_valid = x.len() == 2 || x[2] == b' ';
diff --git a/src/text/parser/x86_64.rs b/src/text/parser/x86_64.rs
index 253a2e8..756c424 100644
--- a/src/text/parser/x86_64.rs
+++ b/src/text/parser/x86_64.rs
@@ -170,6 +170,15 @@ pub fn parse_hex_body_avx2(is_in_tail: bool, src: &[u8], dst: &mut [u8]) -> Opti
 
             let parse_len = parse_len.min(scan_len);
             parsed += parse_len;
+
+            // parse_multi doesn't see the separator after the last element, nor a truncated element
+            let (n_cols, rem) = (parse_len / 3, parse_len % 3);
+            if rem < 2 && n_cols > 0 && chunk[3 * n_cols - 1] != b' ' {
+                return None;
+            }
+            if rem == 1 && chunk[parse_len - 1] != b' ' {
+                return None;
+            }
             n_elems += parse_multi(x0, x1, x2, x3, (parse_len + 1) / 3, &mut dst[n_elems..])?;
 
             if scan_len < 48 {
-- 
2.43.0


From c23f562d752b3d09e4ae813d69f615ef1f875117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:30 +0000
Subject: [PATCH 40/59] fix: templates panicked on negative values

---
 src/template.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/template.rs b/src/template.rs
index 865700c..cc8adca 100644
--- a/src/template.rs
+++ b/src/template.rs
@@ -2,7 +2,7 @@
 // @brief run-time template formatter (for filename formatting)
 
 use anyhow::{anyhow, Context, Result};
-use num_runtime_fmt::NumFmt;
+use num_runtime_fmt::{Base, NumFmt};
 use regex::Regex;
 use std::collections::HashMap;
 
@@ -74,7 +74,12 @@ impl Template {
 
             if let Some(var) = &elem.var {
                 let val = var.0.evaluate(&mut get)?;
-                let fmt = var.1.fmt(val)?;
+                // negative values are in the two's complement form except for decimal
+                let fmt = if val < 0 && var.1.base() != Base::Decimal {
+                    var.1.fmt(val as u64)?
+                } else {
+                    var.1.fmt(val as i128)?
+                };
                 s.push_str(&fmt);
             }
         }
-- 
2.43.0


From 7fd79df5fd05fab905ce6c9af9750a1fd6172556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:01 +0000
Subject: [PATCH 41/59] fix: unsupported or empty format specifiers caused
 panics

---
 src/pipeline.rs |  6 ++++++
 src/text/mod.rs | 22 +++++++++++++++++++++-
 2 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/src/pipeline.rs b/src/pipeline.rs
index 75b9c8f..41c196c 100644
--- a/src/pipeline.rs
+++ b/src/pipeline.rs
@@ -311,6 +311,12 @@ impl Pipeline {
         if self.word_size == 0 {
             return Err(anyhow!("N == 0 is not allowed for --cat and --zip"));
         }
+        if !self.in_format.is_parsable() {
+            return Err(anyhow!("unsupported input format: {:?}", self.in_format));
+        }
+        if !self.out_format.is_formattable() {
+            return Err(anyhow!("unsupported output format: {:?}", self.out_format));
+        }
 
         // validate the node order
         for x in self.nodes.windows(2) {
diff --git a/src/text/mod.rs b/src/text/mod.rs
index af28431..d8fd7c0 100644
--- a/src/text/mod.rs
+++ b/src/text/mod.rs
@@ -21,7 +21,9 @@ pub enum ColumnFormat {
 
 impl ColumnFormat {
     fn from_str(s: &str) -> Result<Self> {
-        assert!(!s.is_empty());
+        if s.is_empty() {
+            return Err(anyhow!("empty input/output format specifier"));
+        }
 
         let b = s.as_bytes();
         match (b[0], b.len() > 1) {
@@ -88,6 +90,24 @@ impl InoutFormat {
         Self::from_str_with_columns(config, 16)
     }
 
+    // true if TextParser supports this combination of columns (or it's binary)
+    pub fn is_parsable(&self) -> bool {
+        let is_supported = |x: &ColumnFormat| !matches!(x, ColumnFormat::Binary | ColumnFormat::Struct(_));
+
+        self.is_binary()
+            || (is_supported(&self.offset)
+                && is_supported(&self.span)
+                && matches!(self.body, ColumnFormat::None | ColumnFormat::Hexadecimal))
+    }
+
+    // true if TextFormatter supports this combination of columns
+    pub fn is_formattable(&self) -> bool {
+        self.is_binary()
+            || (self.body == ColumnFormat::Hexadecimal
+                && self.offset == self.span
+                && !matches!(self.offset, ColumnFormat::Binary | ColumnFormat::Struct(_)))
+    }
+
     pub fn is_gapless(&self) -> bool {
         self.offset == ColumnFormat::None && self.span == ColumnFormat::None
     }
-- 
2.43.0


From bebf908d6e43d07e6c6eab04d23cd396783279be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:28 +0000
Subject: [PATCH 42/59] fix: error messages on non-UTF-8 records were undefined
 behavior

---
 src/text/parser/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/text/parser/mod.rs b/src/text/parser/mod.rs
index 1e7aa2b..7d0d645 100644
--- a/src/text/parser/mod.rs
+++ b/src/text/parser/mod.rs
@@ -279,7 +279,7 @@ impl LineCache {
             }
 
             v.push('"');
-            v.push_str(unsafe { std::str::from_utf8_unchecked(&input[..len]) });
+            v.push_str(&String::from_utf8_lossy(&input[..len]));
             if len == 32 {
                 v.pop();
                 v.push_str("...");
-- 
2.43.0


From 3734e376b0ac84d0276b985f0f698fc989516961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:39 +0000
Subject: [PATCH 43/59] fix: overlong decimal offsets and lengths were not
 rejected

---
 src/text/parser/naive.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/text/parser/naive.rs b/src/text/parser/naive.rs
index 5ca67b3..834d220 100644
--- a/src/text/parser/naive.rs
+++ b/src/text/parser/naive.rs
@@ -82,7 +82,7 @@ pub fn parse_hex_body_naive(is_in_tail: bool, src: &[u8], dst: &mut [u8]) -> Opt
 pub fn parse_dec_single(src: &[u8]) -> Option<(u64, usize)> {
     assert!(src.len() >= 16);
 
-    let mut n = 0;
+    let mut n: u64 = 0;
     for (i, &x) in src.iter().enumerate() {
         if x == b' ' {
             return Some((n, i));
@@ -92,7 +92,7 @@ pub fn parse_dec_single(src: &[u8]) -> Option<(u64, usize)> {
             return None;
         }
 
-        n = n * 10 + (x - b'0') as u64;
+        n = n.checked_mul(10)?.checked_add((x - b'0') as u64)?;
     }
     None
 }
-- 
2.43.0


From 0488264665cd56178c07110e24b7ac725e40189c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:52 +0000
Subject: [PATCH 44/59] fix: nd panicked when it failed to start CMD

---
 src/drain/patch.rs | 15 +++++++--------
 src/pipeline.rs    |  2 +-
 2 files changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/drain/patch.rs b/src/drain/patch.rs
index a91abe2..ec09f30 100644
--- a/src/drain/patch.rs
+++ b/src/drain/patch.rs
@@ -19,14 +19,13 @@ struct BashPipeWriter {
 }
 
 impl BashPipe {
-    fn new(command: &str) -> Self {
+    fn new(command: &str) -> Result<Self> {
         let child = Command::new("bash")
             .args(["-c", command])
             .stdin(Stdio::piped())
             .stdout(Stdio::piped())
-            .spawn()
-            .unwrap();
-        BashPipe { child }
+            .spawn()?;
+        Ok(BashPipe { child })
     }
 
     fn spawn_reader(&mut self) -> RawStream {
@@ -64,8 +63,8 @@ impl PatchDrain {
         command: &str,
         out_format: &InoutFormat,
         patch_format: &InoutFormat,
-    ) -> Self {
-        let mut pipe = BashPipe::new(command);
+    ) -> Result<Self> {
+        let mut pipe = BashPipe::new(command)?;
         let mut writer = pipe.spawn_writer();
         let formatter = TextFormatter::new(out_format, (0, 0));
 
@@ -112,11 +111,11 @@ impl PatchDrain {
         let reader = pipe.spawn_reader();
         let patch = PatchStream::new(original, Box::new(reader), patch_format);
 
-        PatchDrain {
+        Ok(PatchDrain {
             patch: Some(patch),
             pipe,
             thread: Some(thread),
-        }
+        })
     }
 }
 
diff --git a/src/pipeline.rs b/src/pipeline.rs
index 41c196c..5afbef6 100644
--- a/src/pipeline.rs
+++ b/src/pipeline.rs
@@ -436,7 +436,7 @@ impl Pipeline {
                     (cache, NodeInstance::Byte(next))
                 }
                 (PatchBack(command), NodeInstance::Segment(prev)) => {
-                    let next = Box::new(PatchDrain::new(prev, cache.unwrap(), command, &self.out_format, &self.patch_format));
+                    let next = Box::new(PatchDrain::new(prev, cache.unwrap(), command, &self.out_format, &self.patch_format)?);
                     (None, NodeInstance::Byte(next))
                 }
                 (next, _) => return Err(anyhow!("unallowed node {:?} found after (internal error)", next)),
-- 
2.43.0


From 1d45cb16caf78b65e99f10a7563ea1ed896b4721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:09 +0000
Subject: [PATCH 45/59] fix: stream of fillers withdrew the bytes it had
 offered

---
 src/byte/zero.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/byte/zero.rs b/src/byte/zero.rs
index 920861b..d2b4287 100644
--- a/src/byte/zero.rs
+++ b/src/byte/zero.rs
@@ -56,7 +56,10 @@ impl ByteStream for ZeroStream {
             return;
         }
         self.offset += amount;
-        self.next_len = std::cmp::min(self.len - self.offset, BLOCK_SIZE);
+
+        // the unconsumed bytes must be there in the next call of `fill_buf`
+        self.next_len = std::cmp::max(self.next_len - amount, BLOCK_SIZE);
+        self.next_len = std::cmp::min(self.len - self.offset, self.next_len);
     }
 }
 
-- 
2.43.0


From 4ed1085718b7e5ce2264303f4b790de25a65b764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:39 +0000
Subject: [PATCH 46/59] fix: panicked when the cache of --patch-back couldn't
 be written

---
 src/byte/tee.rs | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/byte/tee.rs b/src/byte/tee.rs
index 264fe33..83a959e 100644
--- a/src/byte/tee.rs
+++ b/src/byte/tee.rs
@@ -96,6 +96,16 @@ impl TeeStream {
         Ok(())
     }
 
+    fn error(&self) -> Option<String> {
+        self.cache.inner.lock().ok().and_then(|cache| cache.error.clone())
+    }
+
+    fn set_error(&self, error: &anyhow::Error) {
+        if let Ok(mut cache) = self.cache.inner.lock() {
+            cache.error.get_or_insert(format!("{error:#}"));
+        }
+    }
+
     fn drain(&mut self) -> Result<()> {
         loop {
             let (is_eof, bytes) = self.src.fill_buf(BLOCK_SIZE)?;
@@ -110,7 +120,7 @@ impl TeeStream {
 impl Drop for TeeStream {
     fn drop(&mut self) {
         // the consumer may not have reached the end of the stream. cache the remainder as well
-        let is_broken = std::thread::panicking() || matches!(self.cache.inner.lock(), Ok(cache) if cache.error.is_some());
+        let is_broken = std::thread::panicking() || self.error().is_some();
         let error = if is_broken {
             Some("the stream is broken".to_string())
         } else {
@@ -127,9 +137,13 @@ impl Drop for TeeStream {
 
 impl ByteStream for TeeStream {
     fn fill_buf(&mut self, request: usize) -> Result<(bool, usize)> {
+        if let Some(e) = self.error() {
+            return Err(anyhow!("{e}"));
+        }
+
         let ret = self.src.fill_buf(request);
-        if let (Err(e), Ok(mut cache)) = (&ret, self.cache.inner.lock()) {
-            cache.error = Some(format!("{e:#}"));
+        if let Err(e) = &ret {
+            self.set_error(e);
         }
         ret
     }
@@ -139,7 +153,11 @@ impl ByteStream for TeeStream {
     }
 
     fn consume(&mut self, bytes: usize) {
-        self.append(bytes).unwrap();
+        // the error is returned from the next call of `fill_buf`, on both sides
+        if let Err(e) = self.append(bytes) {
+            self.set_error(&e);
+            self.src.consume(bytes);
+        }
     }
 }
 
-- 
2.43.0


From f6bfa98ab9609a5a753bfcecceeda6ec15b43fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:27 +0000
Subject: [PATCH 47/59] fix: text parser read another block for every line and
 kept the whole input in memory

---
 src/text/parser/mod.rs | 44 +++++++++++++++++++++++++++++++++---------
 1 file changed, 35 insertions(+), 9 deletions(-)

diff --git a/src/text/parser/mod.rs b/src/text/parser/mod.rs
index 7d0d645..200aec5 100644
--- a/src/text/parser/mod.rs
+++ b/src/text/parser/mod.rs
@@ -336,6 +336,9 @@ fn test_line_cache() {
 
 pub struct TextParser {
     src: Box<dyn ByteStream>,
+    is_eof: bool,
+    len: usize, // #bytes that are available in `src`
+    pos: usize, // #bytes that are already parsed
 
     // parser for non-binary streams; bypassed for binary streams (though the functions are valid)
     parse_offset: ParseSingle,
@@ -368,6 +371,9 @@ impl TextParser {
 
         TextParser {
             src,
+            is_eof: false,
+            len: 0,
+            pos: 0,
             parse_offset,
             parse_span,
             parse_body,
@@ -379,6 +385,26 @@ impl TextParser {
         self.cache.format(include_prev)
     }
 
+    // forwards the source only when the remainder gets short, so that it doesn't read ahead on every line
+    fn fill_buf(&mut self) -> Result<(bool, usize)> {
+        if !self.is_eof && self.len - self.pos < MARGIN_SIZE {
+            if self.len > 0 {
+                self.src.consume(self.pos);
+            }
+            (self.is_eof, self.len) = self.src.fill_buf(BLOCK_SIZE)?;
+            self.pos = 0;
+        }
+        Ok((self.is_eof, self.len - self.pos))
+    }
+
+    fn as_slice(&self) -> &[u8] {
+        &self.src.as_slice()[self.pos..]
+    }
+
+    fn consume(&mut self, amount: usize) {
+        self.pos += amount;
+    }
+
     fn read_head(&self, stream: &[u8]) -> Option<(usize, usize, usize)> {
         let (offset, fwd1) = (self.parse_offset)(stream)?;
         if stream[fwd1] != b' ' {
@@ -447,12 +473,12 @@ impl TextParser {
     }
 
     fn read_line_continued(&mut self, offset: usize, span: usize, is_in_tail: bool, buf: &mut Vec<u8>) -> Result<Option<(usize, usize)>> {
-        let (is_eof, len) = self.src.fill_buf(BLOCK_SIZE)?;
+        let (is_eof, len) = self.fill_buf()?;
         if is_eof && len == 0 {
             return Ok(Some((offset, span)));
         }
 
-        let mut stream = self.src.as_slice();
+        let mut stream = self.as_slice();
         let mut rem_len = len;
         let mut is_in_tail = is_in_tail;
         while rem_len > 0 {
@@ -467,7 +493,7 @@ impl TextParser {
             }
             if eol_found {
                 rem_len = rem_len.saturating_sub(1);
-                self.src.consume(len - rem_len);
+                self.consume(len - rem_len);
                 return Ok(Some((offset, span)));
             }
 
@@ -475,17 +501,17 @@ impl TextParser {
             stream = rem_stream;
         }
 
-        self.src.consume(len - rem_len);
+        self.consume(len - rem_len);
         self.read_line_continued(offset, span, is_in_tail, buf)
     }
 
     pub fn read_line(&mut self, buf: &mut Vec<u8>) -> Result<Option<(usize, usize)>> {
-        let (is_eof, len) = self.src.fill_buf(BLOCK_SIZE)?;
+        let (is_eof, len) = self.fill_buf()?;
         if is_eof && len == 0 {
             return Ok(None);
         }
 
-        let stream = self.src.as_slice();
+        let stream = &self.src.as_slice()[self.pos..];
         debug_assert!(stream.len() >= MARGIN_SIZE);
 
         // save the head of the current line for formatting error messages
@@ -502,7 +528,7 @@ impl TextParser {
 
         if (delims & 0xff) == b'\n' as u32 {
             let fwd = std::cmp::min(fwd + 1, len);
-            self.src.consume(fwd);
+            self.consume(fwd);
             return Ok(Some((offset, span)));
         }
         // 0x207c20 == " | "
@@ -529,7 +555,7 @@ impl TextParser {
             }
             if eol_found {
                 rem_len = rem_len.saturating_sub(1);
-                self.src.consume(len - rem_len);
+                self.consume(len - rem_len);
                 return Ok(Some((offset, span)));
             }
 
@@ -537,7 +563,7 @@ impl TextParser {
             stream = rem_stream;
         }
 
-        self.src.consume(len - rem_len);
+        self.consume(len - rem_len);
         self.read_line_continued(offset, span, is_in_tail, buf)
     }
 }
-- 
2.43.0


From 317f44ca8c12900af1c5a200c34c97bb074c56ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:44 +0000
Subject: [PATCH 48/59] fix: S..e ranges of --cut and --lines kept the whole
 stream in memory until EOF

---
 src/byte/cut.rs       | 10 ++++++++--
 src/mapper.rs         | 11 +++++++++++
 src/segment/filter.rs | 10 ++++++++--
 3 files changed, 27 insertions(+), 4 deletions(-)

diff --git a/src/byte/cut.rs b/src/byte/cut.rs
index a2aee69..04d5246 100644
--- a/src/byte/cut.rs
+++ b/src/byte/cut.rs
@@ -10,7 +10,7 @@ use std::cmp::Reverse;
 struct Cutter {
     filters: Vec<RangeMapper>,      // filters that both ends are start-anchored
     tail_filters: Vec<RangeMapper>, // filters that have tail-anchored ends
-    trans_offset: usize,            // minimum start offset among {StartAnchored(x)..EndAnchored(y)}
+    trans_offset: usize,            // the offset where we need to know the tail to go further
     tail_margin: usize,             // #bytes to be left at the tail
 }
 
@@ -23,6 +23,7 @@ impl Cutter {
             for expr in exprs.strip_suffix(',').unwrap_or(exprs).split(',') {
                 let expr = RangeMapper::from_str(expr)?;
                 if expr.has_right_anchor() {
+                    filters.extend(expr.to_body());
                     tail_filters.push(expr);
                 } else {
                     filters.push(expr);
@@ -31,7 +32,8 @@ impl Cutter {
         }
         filters.sort_by_key(|x| Reverse(x.sort_key()));
 
-        let trans_offset = tail_filters.iter().map(|x| x.trans_offset()).min().unwrap_or(usize::MAX);
+        let no_body = tail_filters.iter().filter(|x| x.to_body().is_none());
+        let trans_offset = no_body.map(|x| x.trans_offset()).min().unwrap_or(usize::MAX);
         let tail_margin = tail_filters.iter().map(|x| x.tail_margin()).max().unwrap_or(0);
 
         Ok(Cutter {
@@ -54,6 +56,10 @@ impl Cutter {
         // when it reached EOF, convert all right-anchored and mixed ranges to
         // left-anchored ones, as the absolute offset finally got known
         if is_eof && !self.tail_filters.is_empty() {
+            // replace the bodies with the actual ranges
+            let tail_filters = &self.tail_filters;
+            self.filters.retain(|x| !tail_filters.iter().any(|y| y.to_body() == Some(*x)));
+
             for filter in &self.tail_filters {
                 self.filters.push(filter.to_left_anchored(offset + bytes));
             }
diff --git a/src/mapper.rs b/src/mapper.rs
index 44a767a..7e20e3a 100644
--- a/src/mapper.rs
+++ b/src/mapper.rs
@@ -233,6 +233,17 @@ impl RangeMapper {
         }
     }
 
+    // left-anchored range that covers the body (the part before the tail margin) of a `StartAnchored..EndAnchored` range
+    pub fn to_body(self) -> Option<Self> {
+        match (self.start, self.end) {
+            (StartAnchored(x), EndAnchored(_)) => Some(RangeMapper {
+                start: StartAnchored(x),
+                end: StartAnchored(usize::MAX),
+            }),
+            _ => None,
+        }
+    }
+
     pub fn has_right_anchor(&self) -> bool {
         matches!((self.start, self.end), (EndAnchored(_), _) | (_, EndAnchored(_)))
     }
diff --git a/src/segment/filter.rs b/src/segment/filter.rs
index 14fcd26..d351b29 100644
--- a/src/segment/filter.rs
+++ b/src/segment/filter.rs
@@ -9,7 +9,7 @@ use std::cmp::Reverse;
 struct Cutter {
     filters: Vec<RangeMapper>,      // filters that both ends are start-anchored
     tail_filters: Vec<RangeMapper>, // filters that have tail-anchored ends
-    trans_offset: usize,            // minimum start offset among {StartAnchored(x)..EndAnchored(y)}
+    trans_offset: usize,            // the offset where we need to know the tail to go further
     tail_margin: usize,             // #segments to be left at the tail
 }
 
@@ -22,6 +22,7 @@ impl Cutter {
             for expr in exprs.strip_suffix(',').unwrap_or(exprs).split(',') {
                 let expr = RangeMapper::from_str(expr)?;
                 if expr.has_right_anchor() {
+                    filters.extend(expr.to_body());
                     tail_filters.push(expr);
                 } else {
                     filters.push(expr);
@@ -30,7 +31,8 @@ impl Cutter {
         }
         filters.sort_by_key(|x| Reverse(x.sort_key()));
 
-        let trans_offset = tail_filters.iter().map(|x| x.trans_offset()).min().unwrap_or(usize::MAX);
+        let no_body = tail_filters.iter().filter(|x| x.to_body().is_none());
+        let trans_offset = no_body.map(|x| x.trans_offset()).min().unwrap_or(usize::MAX);
         let tail_margin = tail_filters.iter().map(|x| x.tail_margin()).max().unwrap_or(0);
 
         Ok(Cutter {
@@ -57,6 +59,10 @@ impl Cutter {
         // if reached EOF, we can finally process the tail (non-left-anchord) ranges.
         // we first convert all right-anchored and mixed ranges to left-anchored ones.
         if is_eof && !self.tail_filters.is_empty() {
+            // replace the bodies with the actual ranges
+            let tail_filters = &self.tail_filters;
+            self.filters.retain(|x| !tail_filters.iter().any(|y| y.to_body() == Some(*x)));
+
             for filter in &self.tail_filters {
                 self.filters.push(filter.to_left_anchored(offset + count));
             }
-- 
2.43.0


From 84baf1d6165537a7c32384de32f9ec0391e14ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:43 +0000
Subject: [PATCH 49/59] verification hook: exact buffers under
 cfg(nd_verif_exact)

---
 src/filluninit.rs | 12 ++++++++++++
 src/streambuf.rs  |  4 ++++
 2 files changed, 16 insertions(+)

diff --git a/src/filluninit.rs b/src/filluninit.rs
index cfbd345..575d998 100644
--- a/src/filluninit.rs
+++ b/src/filluninit.rs
@@ -36,6 +36,18 @@ impl FillUninit for Vec<u8> {
     {
         let mut f = f;
 
+        // verification builds (RUSTFLAGS="--cfg nd_verif_exact") hand over a buffer of exactly `len` bytes,
+        // so that sanitizers find every access out of it
+        #[cfg(nd_verif_exact)]
+        if true {
+            let mut arr = Box::<[u8]>::new_uninit_slice(len);
+            let ret = f(unsafe { std::mem::transmute::<&mut [std::mem::MaybeUninit<u8>], &mut [u8]>(&mut arr) });
+            if let Ok((_, clip)) = ret {
+                self.extend_from_slice(unsafe { &arr.assume_init()[..clip] });
+            }
+            return ret;
+        }
+
         if self.capacity() < self.len() + len {
             let shift = (self.len() + len).leading_zeros() as usize;
             let shift = 8 * std::mem::size_of::<usize>() - shift;
diff --git a/src/streambuf.rs b/src/streambuf.rs
index 401f28a..4e6e352 100644
--- a/src/streambuf.rs
+++ b/src/streambuf.rs
@@ -115,6 +115,10 @@ impl StreamBuf {
         self.len = self.buf.len();
         self.buf.resize(self.len + MARGIN_SIZE, b'\n');
 
+        // verification builds leave no slack after the margin
+        #[cfg(nd_verif_exact)]
+        self.buf.shrink_to_fit();
+
         Ok((self.is_eof, self.len - self.pos))
     }
 
-- 
2.43.0


From f4fdcb14be89966903ede5fed4330edd9a6056de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:29 +0000
Subject: [PATCH 50/59] fix: huge numbers and a zero pitch in --width and in
 S..E overflowed or never ended

Offsets near the limits of 64-bit integers overflowed when mapped to a slice, and
a zero pitch with a non-empty mapping got past the parser to an assertion or an
endless loop.
---
 src/mapper.rs         |  6 +++---
 src/segment/stride.rs | 19 +++++++++++++++++--
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/mapper.rs b/src/mapper.rs
index 7e20e3a..3cf60e2 100644
--- a/src/mapper.rs
+++ b/src/mapper.rs
@@ -48,7 +48,7 @@ impl SegmentMapperAnchor {
     }
 
     pub fn evaluate(&self, input: &[isize; 2]) -> isize {
-        input[self.anchor] + self.offset
+        input[self.anchor].saturating_add(self.offset)
     }
 }
 
@@ -180,13 +180,13 @@ impl RangeMapper {
         let start = if mapper.start.anchor == 0 {
             StartAnchored(std::cmp::max(mapper.start.offset, 0) as usize)
         } else {
-            EndAnchored(std::cmp::max(-mapper.start.offset, 0) as usize)
+            EndAnchored(std::cmp::min(mapper.start.offset, 0).unsigned_abs())
         };
 
         let end = if mapper.end.anchor == 0 {
             StartAnchored(std::cmp::max(mapper.end.offset, 0) as usize)
         } else {
-            EndAnchored(std::cmp::max(-mapper.end.offset, 0) as usize)
+            EndAnchored(std::cmp::min(mapper.end.offset, 0).unsigned_abs())
         };
 
         Ok(RangeMapper { start, end })
diff --git a/src/segment/stride.rs b/src/segment/stride.rs
index 869062b..2484a3b 100644
--- a/src/segment/stride.rs
+++ b/src/segment/stride.rs
@@ -17,6 +17,15 @@ pub struct ConstSlicerParams {
 
 impl ConstSlicerParams {
     pub fn from_raw(pitch: usize, expr: Option<&str>) -> Result<Self> {
+        // large enough for any stream, and small enough for adding several of them up
+        const MAX_OFFSET: isize = isize::MAX / 16;
+
+        if pitch == 0 {
+            return Err(anyhow!("slicer width must not be zero"));
+        }
+        if pitch > MAX_OFFSET as usize {
+            return Err(anyhow!("slicer width is too large: {}", pitch));
+        }
         let pitch = pitch as isize;
 
         // parse mapper (if it results in an empty slice it's an error)
@@ -33,6 +42,10 @@ impl ConstSlicerParams {
             ));
         }
 
+        if start < -MAX_OFFSET || end > MAX_OFFSET {
+            return Err(anyhow!("offset is too large in map expression {:?}", expr));
+        }
+
         let span = end - start;
         debug_assert!(span > 0);
 
@@ -41,8 +54,10 @@ impl ConstSlicerParams {
             start
         } else {
             let mut margin = -start;
-            while margin >= span {
-                margin -= pitch;
+            if margin >= span {
+                // skip the segments that are entirely out of the stream
+                let skip = (margin - span) / pitch + 1;
+                margin -= skip * pitch;
             }
             -margin
         };
-- 
2.43.0


From 806bd421f4ea86210b5d9a0d8d01dd36625aefbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:58 +0000
Subject: [PATCH 51/59] fix: nd left the pager running behind when it failed or
 the pager had closed its input

---
 src/main.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index a30c078..c78982f 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -180,12 +180,13 @@ fn main_impl(command: &mut clap::Command) -> Result<()> {
         let sources = build_sources(&inputs)?;
         let (child, drain) = build_drain(&args.pager)?;
 
-        let stream = pipeline.spawn_stream(sources)?;
-        consume_stream(stream, drain)?;
+        let ret = pipeline.spawn_stream(sources).and_then(|stream| consume_stream(stream, drain));
 
+        // the pager has its input closed here; don't leave it behind even on an error
         if let Some(mut child) = child {
             let _ = child.wait();
         }
+        return ret;
     }
 
     Ok(())
-- 
2.43.0


From 68be01a09e9c3f6b7c0eabd9d5bdc4db5861ae3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:51 +0000
Subject: [PATCH 52/59] fix: stdin was taken twice without an error, as the
 default input or by several in-place files

`nd --patch - <FILE` read the stream and the patch from the same stdin, and
`nd --inplace --patch - A B` patched only A.
---
 src/main.rs     | 10 +++++++++-
 src/pipeline.rs |  4 ++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index c78982f..94314d4 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -94,7 +94,10 @@ impl Args {
     fn count_stdin(&self) -> usize {
         let is_stdin = |x: &str| -> bool { x == "-" || x == "/dev/stdin" };
 
-        self.inputs.iter().filter(|&x| is_stdin(x)).count()
+        // stdin is the default input
+        let default = self.inputs.is_empty() && !self.pipeline.is_inplace();
+
+        self.inputs.iter().filter(|&x| is_stdin(x)).count() + default as usize
     }
 
     fn is_command_alone(&self) -> bool {
@@ -157,6 +160,11 @@ fn main_impl(command: &mut clap::Command) -> Result<()> {
         inputs.sort();
         inputs.dedup();
 
+        // the first file would take it all
+        if inputs.len() > 1 && args.pipeline.count_stdin() > 0 {
+            return Err(anyhow!("stdin (\"-\" or \"/dev/stdin\") must not be used more than once"));
+        }
+
         for input in inputs.windows(1) {
             let sources = build_sources(input)?;
 
diff --git a/src/pipeline.rs b/src/pipeline.rs
index 5afbef6..4b97b8a 100644
--- a/src/pipeline.rs
+++ b/src/pipeline.rs
@@ -96,6 +96,10 @@ pub struct PipelineArgs {
 }
 
 impl PipelineArgs {
+    pub fn is_inplace(&self) -> bool {
+        self.inplace
+    }
+
     pub fn count_stdin(&self) -> usize {
         let is_stdin = |x: &str| -> bool { x == "-" || x == "/dev/stdin" };
 
-- 
2.43.0


From 92053122e693268b43b83921989470b3449d9aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:54 +0000
Subject: [PATCH 53/59] fix: malformed placeholders in the file name template
 were accepted

`{n+1}` was taken for `{n:1}`, and the head of `{q{n}` was dropped.
---
 src/template.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/template.rs b/src/template.rs
index cc8adca..f48a529 100644
--- a/src/template.rs
+++ b/src/template.rs
@@ -22,7 +22,7 @@ impl Template {
         // parsing std::fmt-style formatter string
         // TODO: is there any good crate to do this? better avoid re-inventing wheels...
         let brace_matcher = Regex::new(r"\{.*?\}").unwrap();
-        let arg_matcher = Regex::new(r"\{((?:\([^:]*\))|[a-zA-Z]*)(:{0,1}.*)\}").unwrap();
+        let arg_matcher = Regex::new(r"^\{((?:\([^:]*\))|[a-zA-Z]*)(:.*)?\}$").unwrap();
 
         let mut elems = Vec::new();
         let mut i = 0;
@@ -37,8 +37,7 @@ impl Template {
             let name = args.get(1).unwrap();
             let name = Rpn::new(name.as_str(), vars)?;
 
-            let spec = args.get(2).unwrap();
-            let spec = if spec.as_str().is_empty() { "" } else { &spec.as_str()[1..] };
+            let spec = args.get(2).map_or("", |x| &x.as_str()[1..]);
             let spec = NumFmt::from_str(spec)?;
 
             // expression (variable) and formatter specifier are both sane; move onto composing TemplateElement
-- 
2.43.0


From 7c9e0a331a58cdda85e2d02e7f026213f79e4f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:01 +0000
Subject: [PATCH 54/59] fix: mismatched parentheses in expressions were refused
 only when evaluated

`--walk 'b[0'` failed after a part of the output had been written, or passed on an
empty stream.
---
 src/eval.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/eval.rs b/src/eval.rs
index e60229a..95c5089 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -385,6 +385,10 @@ fn sort_into_rpn(tokens: &[Token]) -> Option<Vec<(Token, usize)>> {
                     if op == Paren(other) {
                         break;
                     }
+                    if matches!(op, Paren(_)) {
+                        // closed by the other one
+                        return None;
+                    }
                     expand_and_push_op(&op, calc_lhs(&op, i, rpn.len()), &mut rpn);
                 }
                 if x == ']' {
-- 
2.43.0


From e7c1a6410b98890c64030ae58bba2f5d2ff7c33d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:24 +0000
Subject: [PATCH 55/59] fix: the default pager was less -S -F, not less -S -F
 -X as documented

---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 94314d4..caead62 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -240,7 +240,7 @@ fn build_drain(pager: &Option<String>) -> Result<(Option<Child>, Box<dyn Write>)
         return Ok((None, Box::new(std::io::stdout())));
     }
 
-    let pager = pager.unwrap_or_else(|| "less -S -F".to_string());
+    let pager = pager.unwrap_or_else(|| "less -S -F -X".to_string());
     let args: Vec<_> = pager.as_str().split_whitespace().collect();
     let mut child = std::process::Command::new(args[0]).args(&args[1..]).stdin(Stdio::piped()).spawn()?;
 
-- 
2.43.0


From 8ed656f145ebcf7533854bf3e5640826962265e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:07 +0000
Subject: [PATCH 56/59] fix: a binary '!' or '~' in an expression panicked or
 was taken for a reversed subtraction

---
 src/eval.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eval.rs b/src/eval.rs
index 95c5089..1f407fa 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -317,8 +317,8 @@ fn mark_prefices(tokens: &mut [Token]) -> Option<()> {
             }
             // prefix followed by an expression
             (Prefix(_), Val(_) | Var(_, _) | VarArr(_) | Paren('(')) => {}
-            // binary op; lhs and rhs
-            (Val(_) | Var(_, _) | Paren(']' | ')'), Op(_)) => {}
+            // binary op; lhs and rhs ('!' and '~' are unary only)
+            (Val(_) | Var(_, _) | Paren(']' | ')'), Op(y)) if y != '!' && y != '~' => {}
             (Op(_), Val(_) | Var(_, _) | VarArr(_) | Paren('(')) => {}
             // parentheses inner
             (Paren('(' | '['), Val(_) | Var(_, _) | VarArr(_) | Paren('(')) => {}
-- 
2.43.0


From f1012ec3e983ff70d6bd37b95007583d594b1ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:59 +0000
Subject: [PATCH 57/59] fix: a walk that reads ahead doesn't load the whole
 stream

---
 src/segment/walk.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/segment/walk.rs b/src/segment/walk.rs
index d8d45f6..16c9fce 100644
--- a/src/segment/walk.rs
+++ b/src/segment/walk.rs
@@ -194,8 +194,12 @@ impl SegmentStream for WalkSlicer {
         let request = std::cmp::max(BLOCK_SIZE, 2 * self.pos);
         let (mut is_eof, mut bytes) = self.src.fill_buf(request)?;
 
+        // expressions may extend the buffer by reading elements far ahead. don't follow it, or the
+        // whole stream is loaded at once
+        let limit = bytes;
+
         let mut is_first = true;
-        while self.pos < bytes {
+        while self.pos < if is_eof { bytes } else { limit } {
             // leave the chunk for the next call if it's not in the buffer. note that at least
             // one chunk must be sliced out at once, even if it's longer than the buffer
             let chunk_len = self.calc_next_chunk_len()?;
-- 
2.43.0


From 566a416f75da0518398e303ae20ac04ae2b49896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:14 +0000
Subject: [PATCH 58/59] fix: ranges that are empty on longer streams don't hold
 the stream

---
 src/byte/cut.rs       | 28 ++++++++++++++++++++--------
 src/mapper.rs         |  8 ++++++++
 src/segment/filter.rs | 28 ++++++++++++++++++++--------
 3 files changed, 48 insertions(+), 16 deletions(-)

diff --git a/src/byte/cut.rs b/src/byte/cut.rs
index 04d5246..396543e 100644
--- a/src/byte/cut.rs
+++ b/src/byte/cut.rs
@@ -32,16 +32,21 @@ impl Cutter {
         }
         filters.sort_by_key(|x| Reverse(x.sort_key()));
 
-        let no_body = tail_filters.iter().filter(|x| x.to_body().is_none());
-        let trans_offset = no_body.map(|x| x.trans_offset()).min().unwrap_or(usize::MAX);
-        let tail_margin = tail_filters.iter().map(|x| x.tail_margin()).max().unwrap_or(0);
-
-        Ok(Cutter {
+        let mut cutter = Cutter {
             filters,
             tail_filters,
-            trans_offset,
-            tail_margin,
-        })
+            trans_offset: usize::MAX,
+            tail_margin: 0,
+        };
+        cutter.update_tail();
+
+        Ok(cutter)
+    }
+
+    fn update_tail(&mut self) {
+        let no_body = self.tail_filters.iter().filter(|x| x.to_body().is_none());
+        self.trans_offset = no_body.map(|x| x.trans_offset()).min().unwrap_or(usize::MAX);
+        self.tail_margin = self.tail_filters.iter().map(|x| x.tail_margin()).max().unwrap_or(0);
     }
 
     fn min_fill_bytes(&self, request: usize) -> usize {
@@ -68,6 +73,13 @@ impl Cutter {
             self.filters.sort_by_key(|x| Reverse(x.sort_key()));
         }
 
+        // drop the ranges that turned out to be empty, otherwise they'd hold the whole stream
+        let tail = offset + bytes;
+        if self.tail_filters.iter().any(|x| x.is_expired(tail)) {
+            self.tail_filters.retain(|x| !x.is_expired(tail));
+            self.update_tail();
+        }
+
         // if not reached EOF, we can forward the pointer up to the trans_offset
         // (body -> tail transition offset) at most. we use `clip` for clipping
         // the ranges in the loop below.
diff --git a/src/mapper.rs b/src/mapper.rs
index 3cf60e2..9d8b706 100644
--- a/src/mapper.rs
+++ b/src/mapper.rs
@@ -248,6 +248,14 @@ impl RangeMapper {
         matches!((self.start, self.end), (EndAnchored(_), _) | (_, EndAnchored(_)))
     }
 
+    // `EndAnchored..StartAnchored` becomes empty when the stream gets long enough
+    pub fn is_expired(&self, tail: usize) -> bool {
+        match (self.start, self.end) {
+            (EndAnchored(x), StartAnchored(y)) => tail.saturating_sub(x) >= y,
+            _ => false,
+        }
+    }
+
     pub fn sort_key(&self) -> (usize, usize) {
         match (self.start, self.end) {
             (StartAnchored(x), StartAnchored(y)) => (x, y),
diff --git a/src/segment/filter.rs b/src/segment/filter.rs
index d351b29..22fd01c 100644
--- a/src/segment/filter.rs
+++ b/src/segment/filter.rs
@@ -31,16 +31,21 @@ impl Cutter {
         }
         filters.sort_by_key(|x| Reverse(x.sort_key()));
 
-        let no_body = tail_filters.iter().filter(|x| x.to_body().is_none());
-        let trans_offset = no_body.map(|x| x.trans_offset()).min().unwrap_or(usize::MAX);
-        let tail_margin = tail_filters.iter().map(|x| x.tail_margin()).max().unwrap_or(0);
-
-        Ok(Cutter {
+        let mut cutter = Cutter {
             filters,
             tail_filters,
-            trans_offset,
-            tail_margin,
-        })
+            trans_offset: usize::MAX,
+            tail_margin: 0,
+        };
+        cutter.update_tail();
+
+        Ok(cutter)
+    }
+
+    fn update_tail(&mut self) {
+        let no_body = self.tail_filters.iter().filter(|x| x.to_body().is_none());
+        self.trans_offset = no_body.map(|x| x.trans_offset()).min().unwrap_or(usize::MAX);
+        self.tail_margin = self.tail_filters.iter().map(|x| x.tail_margin()).max().unwrap_or(0);
     }
 
     fn is_empty(&self) -> bool {
@@ -71,6 +76,13 @@ impl Cutter {
             self.filters.sort_by_key(|x| Reverse(x.sort_key()));
         }
 
+        // drop the ranges that turned out to be empty, otherwise they'd hold the whole stream
+        let tail = offset + count;
+        if self.tail_filters.iter().any(|x| x.is_expired(tail)) {
+            self.tail_filters.retain(|x| !x.is_expired(tail));
+            self.update_tail();
+        }
+
         // if not reached EOF, we can forward the pointer up to the trans_offset
         // (body -> tail transition offset) at most. we use `clip` for clipping
         // the ranges in the loop below.
-- 
2.43.0


From 3dab896ac3d1970a7917a4fc8d2407b6ac4bf052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:49 +0000
Subject: [PATCH 59/59] verification hook: in-process commands under
 cfg(nd_verif_inproc)

---
 src/drain/inproc.rs | 192 ++++++++++++++++++++++++++++++++++++++++++++
 src/drain/mod.rs    |   2 +
 src/drain/patch.rs  |   3 +
 3 files changed, 197 insertions(+)
 create mode 100644 src/drain/inproc.rs

diff --git a/src/drain/inproc.rs b/src/drain/inproc.rs
new file mode 100644
index 0000000..15363f1
--- /dev/null
+++ b/src/drain/inproc.rs
@@ -0,0 +1,192 @@
+// @file inproc.rs
+// @brief a stand-in for `bash -c SCRIPT` which runs in a thread of this process (verification hook)
+//
+// Interpreters can't start processes. Under cfg(nd_verif_inproc), the command is a `;`-separated list of:
+//   cat             copy stdin to stdout until the end
+//   drop            read stdin until the end
+//   take N, skip N  copy (read) N bytes, or up to the end
+//   say TEXT        write TEXT (`_` for a space, `,` for a newline)
+//   yield N         let other threads run, N times
+//   shut, mute      close stdin (stdout)
+
+use std::collections::VecDeque;
+use std::io::{ErrorKind, Read, Result, Write};
+use std::sync::{Arc, Condvar, Mutex};
+use std::thread::JoinHandle;
+
+pub use std::process::Stdio;
+
+#[derive(Default)]
+struct State {
+    bytes: VecDeque<u8>,
+    no_reader: bool,
+    no_writer: bool,
+}
+
+#[derive(Default)]
+struct Pipe {
+    state: Mutex<State>,
+    changed: Condvar,
+}
+
+const CAPACITY: usize = 512;
+
+pub struct ChildStdin(Arc<Pipe>); // the end to be written
+pub struct ChildStdout(Arc<Pipe>); // the end to be read
+
+fn pipe() -> (ChildStdout, ChildStdin) {
+    let pipe = Arc::new(Pipe::default());
+    (ChildStdout(Arc::clone(&pipe)), ChildStdin(pipe))
+}
+
+impl Read for ChildStdout {
+    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
+        let mut state = self.0.state.lock().unwrap();
+        while !buf.is_empty() && state.bytes.is_empty() && !state.no_writer {
+            state = self.0.changed.wait(state).unwrap();
+        }
+        let len = std::cmp::min(buf.len(), state.bytes.len());
+        for (dst, src) in buf.iter_mut().zip(state.bytes.drain(..len)) {
+            *dst = src;
+        }
+        self.0.changed.notify_all();
+        Ok(len)
+    }
+}
+
+impl Write for &ChildStdin {
+    fn write(&mut self, buf: &[u8]) -> Result<usize> {
+        let mut state = self.0.state.lock().unwrap();
+        while !buf.is_empty() && state.bytes.len() == CAPACITY && !state.no_reader {
+            state = self.0.changed.wait(state).unwrap();
+        }
+        if state.no_reader {
+            return Err(ErrorKind::BrokenPipe.into());
+        }
+        let len = std::cmp::min(buf.len(), CAPACITY - state.bytes.len());
+        state.bytes.extend(&buf[..len]);
+        self.0.changed.notify_all();
+        Ok(len)
+    }
+
+    fn flush(&mut self) -> Result<()> {
+        Ok(())
+    }
+}
+
+impl Write for ChildStdin {
+    fn write(&mut self, buf: &[u8]) -> Result<usize> {
+        (&*self).write(buf)
+    }
+
+    fn flush(&mut self) -> Result<()> {
+        Ok(())
+    }
+}
+
+impl Drop for ChildStdout {
+    fn drop(&mut self) {
+        self.0.state.lock().unwrap().no_reader = true;
+        self.0.changed.notify_all();
+    }
+}
+
+impl Drop for ChildStdin {
+    fn drop(&mut self) {
+        self.0.state.lock().unwrap().no_writer = true;
+        self.0.changed.notify_all();
+    }
+}
+
+pub struct Command {
+    script: String,
+}
+
+pub struct Child {
+    pub stdin: Option<ChildStdin>,
+    pub stdout: Option<ChildStdout>,
+    thread: Option<JoinHandle<()>>,
+}
+
+impl Command {
+    pub fn new(_: &str) -> Self {
+        Command { script: String::new() }
+    }
+
+    pub fn args<I: IntoIterator<Item = S>, S: AsRef<str>>(&mut self, args: I) -> &mut Self {
+        self.script = args.into_iter().last().map_or(String::new(), |x| x.as_ref().to_string());
+        self
+    }
+
+    pub fn stdin(&mut self, _: Stdio) -> &mut Self {
+        self
+    }
+
+    pub fn stdout(&mut self, _: Stdio) -> &mut Self {
+        self
+    }
+
+    pub fn spawn(&mut self) -> Result<Child> {
+        let (input, stdin) = pipe();
+        let (stdout, output) = pipe();
+
+        let script = self.script.clone();
+        let thread = std::thread::spawn(move || run(&script, Some(input), Some(output)));
+
+        Ok(Child {
+            stdin: Some(stdin),
+            stdout: Some(stdout),
+            thread: Some(thread),
+        })
+    }
+}
+
+impl Child {
+    pub fn wait(&mut self) -> Result<()> {
+        self.stdin.take();
+        if let Some(thread) = self.thread.take() {
+            thread.join().unwrap();
+        }
+        Ok(())
+    }
+}
+
+fn run(script: &str, mut input: Option<ChildStdout>, mut output: Option<ChildStdin>) {
+    for op in script.split(';') {
+        let (op, arg) = op.split_once(' ').unwrap_or((op, ""));
+        let num = arg.parse::<usize>().unwrap_or(usize::MAX);
+
+        match op {
+            "cat" | "drop" | "take" | "skip" => {
+                let mut rem = num;
+                while let Some(i) = input.as_mut() {
+                    let mut buf = [0u8; 256];
+                    let len = i.read(&mut buf[..std::cmp::min(rem, 256)]).unwrap_or(0);
+                    if len == 0 {
+                        break;
+                    }
+                    rem -= len;
+
+                    if op == "drop" || op == "skip" {
+                        continue;
+                    }
+                    if output.as_mut().map_or(true, |o| o.write_all(&buf[..len]).is_err()) {
+                        return; // as if killed by SIGPIPE
+                    }
+                }
+            }
+            "say" => {
+                let text = arg.replace('_', " ").replace(',', "\n");
+                if output.as_mut().map_or(true, |o| o.write_all(text.as_bytes()).is_err()) {
+                    return;
+                }
+            }
+            "yield" => (0..num).for_each(|_| std::thread::yield_now()),
+            "shut" => input = None,
+            "mute" => output = None,
+            _ => {}
+        }
+    }
+}
+
+// end of inproc.rs
diff --git a/src/drain/mod.rs b/src/drain/mod.rs
index 41269d6..3e9190b 100644
--- a/src/drain/mod.rs
+++ b/src/drain/mod.rs
@@ -1,6 +1,8 @@
 // @file mod.rs
 // @author Hajime Suzuki
 
+#[cfg(nd_verif_inproc)]
+mod inproc;
 mod patch;
 mod scatter;
 
diff --git a/src/drain/patch.rs b/src/drain/patch.rs
index ec09f30..1e87ac1 100644
--- a/src/drain/patch.rs
+++ b/src/drain/patch.rs
@@ -7,6 +7,9 @@ use crate::segment::SegmentStream;
 use crate::text::{InoutFormat, TextFormatter};
 use anyhow::{anyhow, Result};
 use std::io::Write;
+#[cfg(nd_verif_inproc)]
+use super::inproc::{Child, ChildStdin, Command, Stdio};
+#[cfg(not(nd_verif_inproc))]
 use std::process::{Child, ChildStdin, Command, Stdio};
 use std::thread::JoinHandle;
 
-- 
2.43.0

