From 54f88be4de50488d138bc97dc59404ec65a025c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:37 +0000
Subject: [PATCH 1/2] fix: mark an unstarted coroutine as completed before
 dropping its initial object

force_unwind on a coroutine that was never resumed dropped the initial object
first and only then cleared the stack pointer. If that drop panicked and the
panic was caught, the coroutine still looked resumable: resuming it ran a
closure that had already been dropped, and dropping it dropped the closure a
second time.
---
 src/coroutine.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/coroutine.rs b/src/coroutine.rs
index 9982cab..53840a6 100644
--- a/src/coroutine.rs
+++ b/src/coroutine.rs
@@ -347,10 +347,12 @@ impl<Input, Yield, Return, Stack: stack::Stack> Coroutine<Input, Yield, Return,
         // If the coroutine has not started yet then we just need to drop the
         // initial object.
         if !self.started() {
+            // Mark the coroutine as completed first in case the drop unwinds:
+            // the initial object must never be used or dropped again.
+            self.stack_ptr = None;
             unsafe {
                 arch::drop_initial_obj(self.stack.base(), stack_ptr, self.drop_fn);
             }
-            self.stack_ptr = None;
             return;
         }
 
-- 
2.43.0


From 135e82bbfb3e672d3e7da626bcb409bebee5c208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:39 +0000
Subject: [PATCH 2/2] fix: refuse to place over-aligned objects below the top
 of a coroutine stack

Only the size of the initial object was checked before placing it. A
zero-sized closure with a large alignment passes that check, but aligning the
stack pointer for it moves it down by up to the alignment: into the guard page
of a small stack, or for a large alignment past the guard page into memory that
does not belong to the stack, all from safe code. Refuse such types like those
that are too big.
---
 src/arch/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/arch/mod.rs b/src/arch/mod.rs
index a5c7d56..a875c64 100644
--- a/src/arch/mod.rs
+++ b/src/arch/mod.rs
@@ -115,8 +115,13 @@ cfg_if::cfg_if! {
 /// `STACK_ALIGNMENT`.
 #[inline]
 unsafe fn allocate_obj_on_stack<T>(sp: &mut usize, sp_offset: usize, obj: T) {
-    // Sanity check to avoid stack overflows.
+    // Sanity check to avoid stack overflows. The padding needed to align the
+    // object counts towards the space it takes up as well.
     assert!(mem::size_of::<T>() <= 1024, "type is too big to transfer");
+    assert!(
+        mem::align_of::<T>() <= 1024,
+        "type is too aligned to transfer"
+    );
 
     if mem::align_of::<T>() > STACK_ALIGNMENT {
         *sp -= mem::size_of::<T>();
-- 
2.43.0

