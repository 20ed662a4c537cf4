From 70461d1a787f04dfd69c9b624f4b9d34e39375d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:06 +0000
Subject: [PATCH 1/2] fix: include the side to move in the key of a newly
 created position

Position::new never mixed Key::COLOR into the board key, while do_move toggles
it on every move. A position set up with White to move therefore had another
key than the same position reached by playing moves, and the same key as the
position with Black to move.
---
 src/position.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/position.rs b/src/position.rs
index be77b16..91093bc 100644
--- a/src/position.rs
+++ b/src/position.rs
@@ -29,6 +29,9 @@ impl Position {
                 }
             }
         }
+        if inner.side == Color::White {
+            keys.0 ^= Key::COLOR;
+        }
         let checkers = AttackInfo::calculate_checkers(&inner);
         let state = State {
             keys,
-- 
2.43.0


From 0dd1db31349d97d360aa3a99c73da095d3ca5d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:06 +0000
Subject: [PATCH 2/2] fix: do not write through a shared reference when reading
 SIMD lanes

Bitboard::values() stored the vector through the pointer returned by
MaybeUninit::as_ptr(), which only permits reads: undefined behaviour.
---
 src/bitboard/aarch64.rs | 4 ++--
 src/bitboard/x86_64.rs  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/bitboard/aarch64.rs b/src/bitboard/aarch64.rs
index 120170a..7160f45 100644
--- a/src/bitboard/aarch64.rs
+++ b/src/bitboard/aarch64.rs
@@ -62,8 +62,8 @@ impl Bitboard {
     #[inline(always)]
     fn values(self) -> [u64; 2] {
         unsafe {
-            let m = MaybeUninit::<[u64; 2]>::uninit();
-            aarch64::vst1q_u64(m.as_ptr() as *mut _, self.0);
+            let mut m = MaybeUninit::<[u64; 2]>::uninit();
+            aarch64::vst1q_u64(m.as_mut_ptr() as *mut _, self.0);
             m.assume_init()
         }
     }
diff --git a/src/bitboard/x86_64.rs b/src/bitboard/x86_64.rs
index 2732df2..33034e4 100644
--- a/src/bitboard/x86_64.rs
+++ b/src/bitboard/x86_64.rs
@@ -66,8 +66,8 @@ impl Bitboard {
     #[inline(always)]
     fn values(&self) -> [i64; 2] {
         unsafe {
-            let m = MaybeUninit::<[i64; 2]>::uninit();
-            x86_64::_mm_storeu_si128(m.as_ptr() as *mut _, self.0);
+            let mut m = MaybeUninit::<[i64; 2]>::uninit();
+            x86_64::_mm_storeu_si128(m.as_mut_ptr() as *mut _, self.0);
             m.assume_init()
         }
     }
-- 
2.43.0

