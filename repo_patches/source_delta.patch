From 389d5faab04b2989b04b9d6692ae59d85b9bee4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:40 +0000
Subject: [PATCH 1/8] fix: don't drop the closure of an unstarted coroutine
 again if its destructor panics

---
 src/coroutine.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/coroutine.rs b/src/coroutine.rs
index 9982cab..a144417 100644
--- a/src/coroutine.rs
+++ b/src/coroutine.rs
@@ -347,10 +347,12 @@ impl<Input, Yield, Return, Stack: stack::Stack> Coroutine<Input, Yield, Return,
         // If the coroutine has not started yet then we just need to drop the
         // initial object.
         if !self.started() {
+            // Mark the coroutine as completed first: if dropping the initial
+            // object panics then it must not be dropped a second time.
+            self.stack_ptr = None;
             unsafe {
                 arch::drop_initial_obj(self.stack.base(), stack_ptr, self.drop_fn);
             }
-            self.stack_ptr = None;
             return;
         }
 
-- 
2.43.0


From 413a7236da81a2fe89ebb73918c64c363cf69607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:40 +0000
Subject: [PATCH 2/8] fix: refuse closures whose alignment exceeds the space
 reserved for them

---
 src/arch/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/arch/mod.rs b/src/arch/mod.rs
index a5c7d56..5e5b4ab 100644
--- a/src/arch/mod.rs
+++ b/src/arch/mod.rs
@@ -115,8 +115,12 @@ cfg_if::cfg_if! {
 /// `STACK_ALIGNMENT`.
 #[inline]
 unsafe fn allocate_obj_on_stack<T>(sp: &mut usize, sp_offset: usize, obj: T) {
-    // Sanity check to avoid stack overflows.
-    assert!(mem::size_of::<T>() <= 1024, "type is too big to transfer");
+    // Sanity check to avoid stack overflows. Alignment padding uses up stack
+    // space as well, even if the type itself is zero-sized.
+    assert!(
+        mem::size_of::<T>() <= 1024 && mem::align_of::<T>() <= 1024,
+        "type is too big to transfer"
+    );
 
     if mem::align_of::<T>() > STACK_ALIGNMENT {
         *sp -= mem::size_of::<T>();
-- 
2.43.0


From 36f598d8096b65fc528c016b4934142a93515a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:18 +0000
Subject: [PATCH 3/8] fix: separate the lines of LoongArch switch_and_throw's
 asm template

The missing commas made the asm-unwind feature fail to compile on LoongArch64.
---
 src/arch/loongarch64.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/arch/loongarch64.rs b/src/arch/loongarch64.rs
index 8985693..87879a9 100644
--- a/src/arch/loongarch64.rs
+++ b/src/arch/loongarch64.rs
@@ -412,19 +412,19 @@ pub unsafe fn switch_and_throw(
         "la.pcrel $ra, 0f",
 
         // Save the registers of the parent context.
-        "addi.d $sp, $sp, -32"
-        "st.d $s8, $sp, 16"
-        "st.d $ra, $sp, 8"
-        "st.d $fp, $sp, 0"
+        "addi.d $sp, $sp, -32",
+        "st.d $s8, $sp, 16",
+        "st.d $ra, $sp, 8",
+        "st.d $fp, $sp, 0",
 
         // Update the parent link near the base of the coroutine stack.
-        "addi.d $t1, $sp, 16"
-        "st.d $t1, $a1, -16"
+        "addi.d $t1, $sp, 16",
+        "st.d $t1, $a1, -16",
 
         // Load the coroutine registers, with the saved PC into RA.
-        "ld.d $ra, $t0, 16"
-        "ld.d $s8, $t0, 8"
-        "ld.d $fp, $t0, 0"
+        "ld.d $ra, $t0, 16",
+        "ld.d $s8, $t0, 8",
+        "ld.d $fp, $t0, 0",
 
         // Switch to the coroutine stack while popping the saved registers and
         // padding.
-- 
2.43.0


From a09cea4908dcb1534371e05c606049f9f85b313d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:18 +0000
Subject: [PATCH 4/8] fix: restore the parent's stack pointer after a LoongArch
 forced unwind

The stack pointer passed back by switch_yield and switch_and_reset points 16
bytes below the parent's, as it does in switch_and_link; switch_and_throw added
32, leaving the parent's stack pointer 16 bytes too high.
---
 src/arch/loongarch64.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arch/loongarch64.rs b/src/arch/loongarch64.rs
index 87879a9..a945ebf 100644
--- a/src/arch/loongarch64.rs
+++ b/src/arch/loongarch64.rs
@@ -448,7 +448,7 @@ pub unsafe fn switch_and_throw(
         "0:",
 
         // Switch back to our stack and free the saved registers.
-        "addi.d $sp, $a2, 32",
+        "addi.d $sp, $a2, 16",
 
         // Helper function to trigger stack unwinding.
         throw = sym throw,
-- 
2.43.0


From 6a817deb44144f1c2c0edc389b92237ce2f33063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:31 +0000
Subject: [PATCH 5/8] fix: save the TEB fields before dropping the initial
 object

On Windows, drop_initial_obj copied the StackLimit and GuaranteedStackBytes
fields to the base of the stack only after the initial object was dropped. If
dropping it panicked then Coroutine::drop passed whatever happened to be at
the base of the stack to Stack::update_teb_fields.
---
 src/arch/x86_64_windows.rs | 11 ++++++-----
 src/arch/x86_windows.rs    | 11 ++++++-----
 2 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/arch/x86_64_windows.rs b/src/arch/x86_64_windows.rs
index 3133047..ce7b750 100644
--- a/src/arch/x86_64_windows.rs
+++ b/src/arch/x86_64_windows.rs
@@ -595,15 +595,16 @@ pub unsafe fn drop_initial_obj(
     stack_ptr: StackPointer,
     drop_fn: unsafe fn(ptr: *mut u8),
 ) {
-    let ptr = (stack_ptr.get() as *mut u8).add(40);
-    drop_fn(ptr);
-
-    // Also copy the TEB fields to the base of the stack so that they can be
-    // retreived by update_stack_teb_fields().
+    // Copy the TEB fields to the base of the stack so that they can be
+    // retreived by update_stack_teb_fields(). This is done first since
+    // dropping the initial object may unwind.
     let base = stack_base.get() as *mut StackWord;
     let stack = stack_ptr.get() as *const StackWord;
     *base.sub(1) = *stack.add(2); // StackLimit
     *base.sub(2) = *stack.add(4); // GuaranteedStackBytes
+
+    let ptr = (stack_ptr.get() as *mut u8).add(40);
+    drop_fn(ptr);
 }
 
 /// This function must be called after a stack has finished running a coroutine
diff --git a/src/arch/x86_windows.rs b/src/arch/x86_windows.rs
index 4404164..c82e105 100644
--- a/src/arch/x86_windows.rs
+++ b/src/arch/x86_windows.rs
@@ -710,15 +710,16 @@ pub unsafe fn drop_initial_obj(
     stack_ptr: StackPointer,
     drop_fn: unsafe fn(ptr: *mut u8),
 ) {
-    let ptr = (stack_ptr.get() as *mut u8).add(28);
-    drop_fn(ptr);
-
-    // Also copy the TEB fields to the base of the stack so that they can be
-    // retreived by update_stack_teb_fields().
+    // Copy the TEB fields to the base of the stack so that they can be
+    // retreived by update_stack_teb_fields(). This is done first since
+    // dropping the initial object may unwind.
     let base = stack_base.get() as *mut StackWord;
     let stack = stack_ptr.get() as *const StackWord;
     *base.sub(1) = *stack.add(3); // StackLimit
     *base.sub(2) = *stack.add(5); // GuaranteedStackBytes
+
+    let ptr = (stack_ptr.get() as *mut u8).add(28);
+    drop_fn(ptr);
 }
 
 /// This function must be called after a stack has finished running a coroutine
-- 
2.43.0


From 5a69b08ba95fb55df78d2721d1226f3d13ecc828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:47 +0000
Subject: [PATCH 6/8] fix: add the missing colon of a label in switch_and_throw
 on x86-64 Windows

Without it the asm block does not assemble, so that the asm-unwind feature
cannot be used on x86_64-pc-windows-*.
---
 src/arch/x86_64_windows.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arch/x86_64_windows.rs b/src/arch/x86_64_windows.rs
index ce7b750..c9d44fd 100644
--- a/src/arch/x86_64_windows.rs
+++ b/src/arch/x86_64_windows.rs
@@ -556,7 +556,7 @@ pub unsafe fn switch_and_throw(
 
         // Upon returning, our register state is just like a normal return into
         // switch_and_link().
-        "2",
+        "2:",
 
         // This is copied from the second half of switch_and_link().
         "pop rbx",
-- 
2.43.0


From 0bfc8ef016cee8c52909e1fc650a550a3bdc35c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:15 +0000
Subject: [PATCH 7/8] fix: keep the TEB fields of a stack across force_reset on
 Windows

After force_reset, Coroutine::drop and Coroutine::into_stack read the StackLimit
and GuaranteedStackBytes fields from the base of the stack, which had never
been written, and passed them to Stack::update_teb_fields.
---
 src/arch/x86_64_windows.rs | 28 +++++++++++++++++++++-------
 src/arch/x86_windows.rs    | 28 +++++++++++++++++++++-------
 src/coroutine.rs           |  6 ++++++
 3 files changed, 48 insertions(+), 14 deletions(-)

diff --git a/src/arch/x86_64_windows.rs b/src/arch/x86_64_windows.rs
index c9d44fd..a7c8766 100644
--- a/src/arch/x86_64_windows.rs
+++ b/src/arch/x86_64_windows.rs
@@ -595,18 +595,32 @@ pub unsafe fn drop_initial_obj(
     stack_ptr: StackPointer,
     drop_fn: unsafe fn(ptr: *mut u8),
 ) {
-    // Copy the TEB fields to the base of the stack so that they can be
-    // retreived by update_stack_teb_fields(). This is done first since
-    // dropping the initial object may unwind.
-    let base = stack_base.get() as *mut StackWord;
-    let stack = stack_ptr.get() as *const StackWord;
-    *base.sub(1) = *stack.add(2); // StackLimit
-    *base.sub(2) = *stack.add(4); // GuaranteedStackBytes
+    // This is done first since dropping the initial object may unwind.
+    save_stack_teb_fields(stack_base, stack_ptr, false);
 
     let ptr = (stack_ptr.get() as *mut u8).add(40);
     drop_fn(ptr);
 }
 
+/// Copies the TEB fields of a coroutine that is not running to the base of its
+/// stack so that they can be retreived by update_stack_teb_fields().
+///
+/// This is needed when a coroutine is marked as completed without going through
+/// switch_and_reset().
+#[inline]
+pub unsafe fn save_stack_teb_fields(
+    stack_base: StackPointer,
+    stack_ptr: StackPointer,
+    started: bool,
+) {
+    // The TEB fields are preceded by 4 words in a suspended coroutine and by
+    // 1 word in one that has not been started yet.
+    let base = stack_base.get() as *mut StackWord;
+    let stack = (stack_ptr.get() as *const StackWord).add(if started { 4 } else { 1 });
+    *base.sub(1) = *stack.add(1); // StackLimit
+    *base.sub(2) = *stack.add(3); // GuaranteedStackBytes
+}
+
 /// This function must be called after a stack has finished running a coroutine
 /// so that the `StackLimit` and `GuaranteedStackBytes` fields from the TEB can
 /// be updated in the stack. This is necessary if the stack is reused for
diff --git a/src/arch/x86_windows.rs b/src/arch/x86_windows.rs
index c82e105..ac6274d 100644
--- a/src/arch/x86_windows.rs
+++ b/src/arch/x86_windows.rs
@@ -710,18 +710,32 @@ pub unsafe fn drop_initial_obj(
     stack_ptr: StackPointer,
     drop_fn: unsafe fn(ptr: *mut u8),
 ) {
-    // Copy the TEB fields to the base of the stack so that they can be
-    // retreived by update_stack_teb_fields(). This is done first since
-    // dropping the initial object may unwind.
-    let base = stack_base.get() as *mut StackWord;
-    let stack = stack_ptr.get() as *const StackWord;
-    *base.sub(1) = *stack.add(3); // StackLimit
-    *base.sub(2) = *stack.add(5); // GuaranteedStackBytes
+    // This is done first since dropping the initial object may unwind.
+    save_stack_teb_fields(stack_base, stack_ptr, false);
 
     let ptr = (stack_ptr.get() as *mut u8).add(28);
     drop_fn(ptr);
 }
 
+/// Copies the TEB fields of a coroutine that is not running to the base of its
+/// stack so that they can be retreived by update_stack_teb_fields().
+///
+/// This is needed when a coroutine is marked as completed without going through
+/// switch_and_reset().
+#[inline]
+pub unsafe fn save_stack_teb_fields(
+    stack_base: StackPointer,
+    stack_ptr: StackPointer,
+    started: bool,
+) {
+    // The TEB fields are preceded by 4 words in a suspended coroutine and by
+    // 2 words in one that has not been started yet.
+    let base = stack_base.get() as *mut StackWord;
+    let stack = (stack_ptr.get() as *const StackWord).add(if started { 4 } else { 2 });
+    *base.sub(1) = *stack.add(1); // StackLimit
+    *base.sub(2) = *stack.add(3); // GuaranteedStackBytes
+}
+
 /// This function must be called after a stack has finished running a coroutine
 /// so that the `StackLimit` and `GuaranteedStackBytes` fields from the TEB can
 /// be updated in the stack. This is necessary if the stack is reused for
diff --git a/src/coroutine.rs b/src/coroutine.rs
index a144417..b64bc0b 100644
--- a/src/coroutine.rs
+++ b/src/coroutine.rs
@@ -312,6 +312,12 @@ impl<Input, Yield, Return, Stack: stack::Stack> Coroutine<Input, Yield, Return,
     /// This can only be done safely if there are no objects currently on the
     /// coroutine's stack that need to execute `Drop` code.
     pub unsafe fn force_reset(&mut self) {
+        // Save the TEB fields so that they are still passed on to the stack.
+        #[cfg(windows)]
+        if let Some(stack_ptr) = self.stack_ptr {
+            arch::save_stack_teb_fields(self.stack.base(), stack_ptr, self.started());
+        }
+
         self.stack_ptr = None;
     }
 
-- 
2.43.0


From ee849ce95a601e703d22f1db6fc05e4cc5f6e28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:59 +0000
Subject: [PATCH 8/8] fix: assemble switch_and_throw on Thumb-1 targets

STR with a negative offset does not exist in Thumb-1, so the asm-unwind
feature did not build there.
---
 src/arch/arm.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/arch/arm.rs b/src/arch/arm.rs
index 02420d8..60cc85a 100644
--- a/src/arch/arm.rs
+++ b/src/arch/arm.rs
@@ -589,7 +589,9 @@ pub unsafe fn switch_and_throw(
 
         // Update the parent link near the base of the coroutine stack.
         "mov r3, sp",
-        "str r3, [r1, #-8]",
+        thumb2!("str r3, [r1, #-8]"),
+        thumb1!("subs r1, r1, #8"),
+        thumb1!("str r3, [r1]"),
 
         // Switch to the coroutine stack.
         "mov sp, r2",
-- 
2.43.0

