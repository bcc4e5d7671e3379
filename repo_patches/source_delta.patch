From 8bdc91e8212dba55c3d249e09841fb2116ba5afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:06 +0000
Subject: [PATCH 01/16] fix: EXT.W sets N and Z from the 16-bit result

---
 m68000/src/interpreter.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/m68000/src/interpreter.rs b/m68000/src/interpreter.rs
index 77a498b..d27b9b7 100644
--- a/m68000/src/interpreter.rs
+++ b/m68000/src/interpreter.rs
@@ -1025,12 +1025,15 @@ impl<CPU: CpuDetails> M68000<CPU> {
         if mode == 0b010 {
             let d = self.regs.d[reg as usize].0 as i8 as u16;
             self.regs.d_word(reg, d);
+            self.regs.sr.n = d & SIGN_BIT_16 != 0;
+            self.regs.sr.z = d == 0;
         } else {
-            self.regs.d[reg as usize].0 = self.regs.d[reg as usize].0 as i16 as u32;
+            let d = self.regs.d[reg as usize].0 as i16 as u32;
+            self.regs.d[reg as usize].0 = d;
+            self.regs.sr.n = d & SIGN_BIT_32 != 0;
+            self.regs.sr.z = d == 0;
         }
 
-        self.regs.sr.n = self.regs.d[reg as usize].0 & SIGN_BIT_32 != 0;
-        self.regs.sr.z = self.regs.d[reg as usize].0 == 0;
         self.regs.sr.v = false;
         self.regs.sr.c = false;
 
-- 
2.43.0


From 3676f781576dcf278b56fdf63237dabad34f3dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:06 +0000
Subject: [PATCH 02/16] fix: DIVS with a quotient of -32768 does not overflow

---
 m68000/src/interpreter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/m68000/src/interpreter.rs b/m68000/src/interpreter.rs
index d27b9b7..fc6c2fa 100644
--- a/m68000/src/interpreter.rs
+++ b/m68000/src/interpreter.rs
@@ -860,7 +860,7 @@ impl<CPU: CpuDetails> M68000<CPU> {
 
         self.regs.sr.n = (quot as i16) < 0; // Undefined on overflow.
         self.regs.sr.z = quot as i16 == 0; // Undefined on overflow.
-        self.regs.sr.v = quot <= i16::MIN as i32 || quot > i16::MAX as i32;
+        self.regs.sr.v = quot < i16::MIN as i32 || quot > i16::MAX as i32;
 
         if !self.regs.sr.v {
             self.regs.d[reg as usize].0 = (rem as u16 as u32) << 16 | (quot as u16 as u32);
-- 
2.43.0


From d9ffa0a3e6aec95fddd66dcfda55e7c9791e49eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:06 +0000
Subject: [PATCH 03/16] fix: ORI and EORI to CCR do not change the upper byte
 of SR

---
 m68000/src/interpreter.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/m68000/src/interpreter.rs b/m68000/src/interpreter.rs
index fc6c2fa..e5703c0 100644
--- a/m68000/src/interpreter.rs
+++ b/m68000/src/interpreter.rs
@@ -992,7 +992,7 @@ impl<CPU: CpuDetails> M68000<CPU> {
     }
 
     pub(super) fn execute_eoriccr(&mut self, imm: u16) -> InterpreterResult {
-        self.regs.sr ^= imm;
+        self.regs.sr ^= imm & CCR_MASK;
 
         Ok(CPU::EORICCR)
     }
@@ -1703,7 +1703,7 @@ impl<CPU: CpuDetails> M68000<CPU> {
     }
 
     pub(super) fn execute_oriccr(&mut self, imm: u16) -> InterpreterResult {
-        self.regs.sr |= imm;
+        self.regs.sr |= imm & CCR_MASK;
 
         Ok(CPU::ORICCR)
     }
-- 
2.43.0


From e16a8d37c55e1ad7933fb02f48a82e3d5f66f867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:06 +0000
Subject: [PATCH 04/16] fix: JSR computes its target before pushing the return
 address

---
 m68000/src/interpreter.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/m68000/src/interpreter.rs b/m68000/src/interpreter.rs
index e5703c0..de33c74 100644
--- a/m68000/src/interpreter.rs
+++ b/m68000/src/interpreter.rs
@@ -1066,8 +1066,9 @@ impl<CPU: CpuDetails> M68000<CPU> {
         let mut ea = EffectiveAddress::new(am, None);
 
         let mut exec_time = 0;
+        let target = self.get_effective_address(&mut ea, &mut exec_time);
         self.push_long(memory, self.regs.pc.0)?;
-        self.regs.pc.0 = self.get_effective_address(&mut ea, &mut exec_time);
+        self.regs.pc.0 = target;
 
         Ok(match am {
             AddressingMode::Ari(_) => CPU::JSR_ARI,
-- 
2.43.0


From 9791fa166d0fbb53ca2b5ac0e62ac4b6f5fe95f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:06 +0000
Subject: [PATCH 05/16] fix: CHK sets N when it traps

---
 m68000/src/interpreter.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/m68000/src/interpreter.rs b/m68000/src/interpreter.rs
index de33c74..55e0da7 100644
--- a/m68000/src/interpreter.rs
+++ b/m68000/src/interpreter.rs
@@ -687,6 +687,7 @@ impl<CPU: CpuDetails> M68000<CPU> {
         let data = self.regs.d[reg as usize].0 as i16;
 
         if data < 0 || data > src {
+            self.regs.sr.n = data < 0;
             Err(Vector::ChkInstruction as u8)
         } else {
             Ok(CPU::CHK_NO_TRAP + exec_time)
-- 
2.43.0


From 48b896537773f92a0e3c37a24bdd9b50705ed559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:30 +0000
Subject: [PATCH 06/16] fix: keep all the pending exceptions that have the same
 priority

---
 m68000/src/exception.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/m68000/src/exception.rs b/m68000/src/exception.rs
index f66be65..ac7470f 100644
--- a/m68000/src/exception.rs
+++ b/m68000/src/exception.rs
@@ -114,6 +114,11 @@ impl Exception {
     pub const fn is_interrupt(&self) -> bool {
         is_interrupt(self.vector)
     }
+
+    /// The level of the interrupt, 0 if it is not an interrupt with a level.
+    const fn interrupt_level(&self) -> u8 {
+        if self.is_interrupt() { self.vector & 0x7 } else { 0 }
+    }
 }
 
 impl From<u8> for Exception {
@@ -141,7 +146,9 @@ impl Ord for Exception {
         match self.priority.cmp(&other.priority) {
             Ordering::Greater => Ordering::Less,
             Ordering::Less => Ordering::Greater,
-            Ordering::Equal => Ordering::Equal,
+            // Different exceptions of the same priority are not equal, or only one of them could be pending at a time.
+            // The interrupts of higher level are processed after, so their handlers are executed first.
+            Ordering::Equal => (self.interrupt_level(), self.vector).cmp(&(other.interrupt_level(), other.vector)),
         }
     }
 }
-- 
2.43.0


From 491ab261ed7fd27790c607bf4729881e31b01002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:30 +0000
Subject: [PATCH 07/16] fix: on-chip interrupts have the priority of interrupts

---
 m68000/src/exception.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/m68000/src/exception.rs b/m68000/src/exception.rs
index ac7470f..c510a4a 100644
--- a/m68000/src/exception.rs
+++ b/m68000/src/exception.rs
@@ -83,6 +83,7 @@ const fn get_vector_priority(vector: u8) -> u8 {
         2 => 1, // Access Error.
         9 => 2, // Trace.
         24..=31 => 3, // Interrupt.
+        57..=63 => 3, // On-chip interrupt.
         64..=255 => 3, // User Interrupt.
         4 => 4, // Illegal.
         8 => 5, // Privilege.
-- 
2.43.0


From 4e211a40f065ce4c86285c399b6c9eb160db081e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:30 +0000
Subject: [PATCH 08/16] fix: a stopped CPU resumes on unmasked interrupts only,
 pending ones included

---
 m68000/src/exception.rs   | 36 +++++++++++++++++++++++++-----------
 m68000/src/interpreter.rs |  3 ++-
 2 files changed, 27 insertions(+), 12 deletions(-)

diff --git a/m68000/src/exception.rs b/m68000/src/exception.rs
index c510a4a..ee19d94 100644
--- a/m68000/src/exception.rs
+++ b/m68000/src/exception.rs
@@ -157,15 +157,34 @@ impl Ord for Exception {
 impl<CPU: CpuDetails> M68000<CPU> {
     /// Requests the CPU to process the given exception.
     pub fn exception(&mut self, ex: Exception) {
-        if ex.vector == Vector::ResetSspPc as u8 ||
-           ex.vector == Vector::Trace as u8 ||
-           ex.is_interrupt() {
+        if self.resumes_from_stop(&ex) {
             self.stop = false;
         }
 
         self.exceptions.insert(ex);
     }
 
+    /// Returns true if the interrupt has a level and that level is inhibited by the interrupt mask.
+    ///
+    /// MC68000UM 6.3.2 Level 7 interrupts cannot be inhibited by the interrupt priority mask.
+    fn is_masked(&self, ex: &Exception) -> bool {
+        let level = ex.interrupt_level();
+        ex.is_interrupt() && level != 7 && level <= self.regs.sr.interrupt_mask
+    }
+
+    /// Returns true if the exception makes a stopped CPU resume: reset, trace or an interrupt that is not masked.
+    fn resumes_from_stop(&self, ex: &Exception) -> bool {
+        ex.vector == Vector::ResetSspPc as u8 ||
+        ex.vector == Vector::Trace as u8 ||
+        ex.vector >= Vector::UserInterrupt as u8 ||
+        ex.is_interrupt() && !self.is_masked(ex)
+    }
+
+    /// Returns true if a pending exception makes a stopped CPU resume.
+    pub(super) fn pending_resumes_from_stop(&self) -> bool {
+        self.exceptions.iter().any(|ex| self.resumes_from_stop(ex))
+    }
+
     /// Resets the CPU by fetching the reset vectors.
     fn reset<M: MemoryAccess + ?Sized>(&mut self, memory: &mut M) -> usize {
         self.regs.ssp.0 = memory.get_long(0).expect("An exception occured when reading initial SSP.");
@@ -184,15 +203,10 @@ impl<CPU: CpuDetails> M68000<CPU> {
         let mut to_process = Vec::new();
 
         for ex in &self.exceptions {
-            if ex.is_interrupt() {
-                // If the interrupt is lower or equal to the interrupt mask, then it is not processed.
-                // MC68000UM 6.3.2 Level 7 interrupts cannot be inhibited by the interrupt priority mask.
-                let level = ex.vector & 0x7;
-                if level != 7 && level <= self.regs.sr.interrupt_mask {
-                    continue;
-                }
+            // If the interrupt is lower or equal to the interrupt mask, then it is not processed.
+            if !self.is_masked(ex) {
+                to_process.push(*ex);
             }
-            to_process.push(*ex);
         }
 
         for ex in &to_process {
diff --git a/m68000/src/interpreter.rs b/m68000/src/interpreter.rs
index 55e0da7..a019abf 100644
--- a/m68000/src/interpreter.rs
+++ b/m68000/src/interpreter.rs
@@ -2023,7 +2023,8 @@ impl<CPU: CpuDetails> M68000<CPU> {
         self.check_supervisor()?;
 
         self.regs.sr = imm.into();
-        self.stop = true;
+        // An interrupt already pending that the new mask allows is processed immediately.
+        self.stop = !self.pending_resumes_from_stop();
         Ok(CPU::STOP)
     }
 
-- 
2.43.0


From 283a497a58da142ea0f670e812022c477ec498b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:30 +0000
Subject: [PATCH 09/16] fix: cycle returns the cycles executed when the CPU
 stops after the requested number

---
 m68000/src/interpreter_fast.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/m68000/src/interpreter_fast.rs b/m68000/src/interpreter_fast.rs
index a8f0672..45104b0 100644
--- a/m68000/src/interpreter_fast.rs
+++ b/m68000/src/interpreter_fast.rs
@@ -22,7 +22,7 @@ impl<CPU: CpuDetails> M68000<CPU> {
             total += self.interpreter(memory);
 
             if self.stop {
-                return cycles;
+                return total.max(cycles);
             }
         }
 
-- 
2.43.0


From f9d3baf9da37c0c44adfe0e2064558cdc013037a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:11 +0000
Subject: [PATCH 10/16] fix: both interpreters leave PC unchanged when the
 opcode cannot be fetched

---
 m68000/src/memory_access.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/m68000/src/memory_access.rs b/m68000/src/memory_access.rs
index 28cf90f..30edf6f 100644
--- a/m68000/src/memory_access.rs
+++ b/m68000/src/memory_access.rs
@@ -176,18 +176,18 @@ impl<CPU: CpuDetails> M68000<CPU> {
     /// This function is public because it can be useful in some contexts such as OS-9 environments
     /// where the trap ID is the immediate next word after the TRAP instruction.
     pub fn get_next_word<M: MemoryAccess + ?Sized>(&mut self, memory: &mut M) -> GetResult<u16> {
-        let data = memory.get_word(self.regs.pc.even()?.0).ok_or(ACCESS_ERROR);
+        let data = memory.get_word(self.regs.pc.even()?.0).ok_or(ACCESS_ERROR)?;
         self.regs.pc += 2;
-        data
+        Ok(data)
     }
 
     /// Returns the long at `self.regs.pc` then advances `self.regs.pc` by 4.
     ///
     /// Please note that this function advances the program counter so be careful when using it.
     pub fn get_next_long<M: MemoryAccess + ?Sized>(&mut self, memory: &mut M) -> GetResult<u32> {
-        let data = memory.get_long(self.regs.pc.even()?.0).ok_or(ACCESS_ERROR);
+        let data = memory.get_long(self.regs.pc.even()?.0).ok_or(ACCESS_ERROR)?;
         self.regs.pc += 4;
-        data
+        Ok(data)
     }
 
     /// Returns the word at `self.regs.pc`.
-- 
2.43.0


From 61ad7a90da6e6920f00ef049f60d3ce396a2f68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:11 +0000
Subject: [PATCH 11/16] fix: illegal, unimplemented and privileged instructions
 save their own address

---
 m68000/src/exception.rs                |  6 ++++++
 m68000/src/interpreter_disassembler.rs |  9 +++++++--
 m68000/src/interpreter_fast.rs         | 10 ++++++++--
 3 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/m68000/src/exception.rs b/m68000/src/exception.rs
index ee19d94..beb2a85 100644
--- a/m68000/src/exception.rs
+++ b/m68000/src/exception.rs
@@ -94,6 +94,12 @@ const fn get_vector_priority(vector: u8) -> u8 {
     }
 }
 
+/// Returns true if the PC saved by the exception is the address of the instruction that caused it, and not the address
+/// of the next instruction (MC68000UM 6.3.6 Illegal and Unimplemented Instructions and 6.3.7 Privilege Violations).
+pub(super) const fn saves_instruction_address(vector: u8) -> bool {
+    matches!(vector, 4 | 8 | 10 | 11)
+}
+
 const fn is_interrupt(vector: u8) -> bool {
     vector >= Vector::Level1Interrupt as u8 && vector <= Vector::Level7Interrupt as u8 ||
     vector >= Vector::Level1OnChipInterrupt as u8 && vector <= Vector::Level7OnChipInterrupt as u8
diff --git a/m68000/src/interpreter_disassembler.rs b/m68000/src/interpreter_disassembler.rs
index 865a433..04977e1 100644
--- a/m68000/src/interpreter_disassembler.rs
+++ b/m68000/src/interpreter_disassembler.rs
@@ -3,7 +3,7 @@
 // file, You can obtain one at https://mozilla.org/MPL/2.0/.
 
 use crate::{CpuDetails, M68000, MemoryAccess};
-use crate::exception::{Exception, Vector};
+use crate::exception::{Exception, Vector, saves_instruction_address};
 use crate::instruction::Instruction;
 use crate::interpreter::InterpreterResult;
 use crate::isa::Isa;
@@ -72,7 +72,12 @@ impl<CPU: CpuDetails> M68000<CPU> {
                     None
                 }
             },
-            Err(e) => Some(e),
+            Err(e) => {
+                if saves_instruction_address(e) {
+                    self.regs.pc.0 = instruction.pc;
+                }
+                Some(e)
+            },
         };
 
         (instruction.pc, dis, cycle_count, exception)
diff --git a/m68000/src/interpreter_fast.rs b/m68000/src/interpreter_fast.rs
index 45104b0..2ed98c0 100644
--- a/m68000/src/interpreter_fast.rs
+++ b/m68000/src/interpreter_fast.rs
@@ -3,7 +3,7 @@
 // file, You can obtain one at https://mozilla.org/MPL/2.0/.
 
 use crate::{CpuDetails, M68000, MemoryAccess};
-use crate::exception::{Exception, Vector};
+use crate::exception::{Exception, Vector, saves_instruction_address};
 use crate::instruction::*;
 use crate::interpreter::InterpreterResult;
 use crate::isa::Isa;
@@ -102,6 +102,7 @@ impl<CPU: CpuDetails> M68000<CPU> {
             cycle_count += self.process_pending_exceptions(memory);
         }
 
+        let pc = self.regs.pc;
         let opcode = match self.get_next_word(memory) {
             Ok(op) => op,
             Err(e) => return (cycle_count, Some(e)),
@@ -119,7 +120,12 @@ impl<CPU: CpuDetails> M68000<CPU> {
                     None
                 }
             },
-            Err(e) => Some(e),
+            Err(e) => {
+                if saves_instruction_address(e) {
+                    self.regs.pc = pc;
+                }
+                Some(e)
+            },
         };
 
         (cycle_count, exception)
-- 
2.43.0


From a882d629f482546bf1dfcb2b0f42db4ee66be151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:11 +0000
Subject: [PATCH 12/16] fix: a word that crosses the end of a byte slice is an
 access error, not a panic

---
 m68000/src/memory_access.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/m68000/src/memory_access.rs b/m68000/src/memory_access.rs
index 30edf6f..ba9d9b6 100644
--- a/m68000/src/memory_access.rs
+++ b/m68000/src/memory_access.rs
@@ -240,8 +240,8 @@ impl MemoryAccess for [u8] {
 
     fn get_word(&mut self, addr: u32) -> Option<u16> {
         let addr = addr as usize;
-        if addr < self.len() {
-            Some((self[addr] as u16) << 8 | self[addr.wrapping_add(1)] as u16)
+        if addr.checked_add(1).is_some_and(|next| next < self.len()) {
+            Some((self[addr] as u16) << 8 | self[addr + 1] as u16)
         } else {
             None
         }
@@ -259,9 +259,9 @@ impl MemoryAccess for [u8] {
 
     fn set_word(&mut self, addr: u32, data: u16) -> Option<()> {
         let addr = addr as usize;
-        if addr < self.len() {
+        if addr.checked_add(1).is_some_and(|next| next < self.len()) {
             self[addr] = (data >> 8) as u8;
-            self[addr.wrapping_add(1)] = data as u8;
+            self[addr + 1] = data as u8;
             Some(())
         } else {
             None
@@ -283,8 +283,8 @@ impl MemoryAccess for &[u8] {
 
     fn get_word(&mut self, addr: u32) -> Option<u16> {
         let addr = addr as usize;
-        if addr < self.len() {
-            Some((self[addr] as u16) << 8 | self[addr.wrapping_add(1)] as u16)
+        if addr.checked_add(1).is_some_and(|next| next < self.len()) {
+            Some((self[addr] as u16) << 8 | self[addr + 1] as u16)
         } else {
             None
         }
-- 
2.43.0


From bba1e0911d6274cf9fa9a0a0c09eace5970135dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:01 +0000
Subject: [PATCH 13/16] fix: MOVEM to (An)+ and from -(An) are illegal
 instructions

---
 m68000/src/bin/decoder.rs | 7 +++++--
 m68000/src/decoder.rs     | 8 ++++----
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/m68000/src/bin/decoder.rs b/m68000/src/bin/decoder.rs
index 21c1bbc..db3cf8b 100644
--- a/m68000/src/bin/decoder.rs
+++ b/m68000/src/bin/decoder.rs
@@ -219,9 +219,11 @@ fn generate_isa(opcodes: &mut [Isa; 65536]) {
 
     generate_opcodes(opcodes, "010011100110abbb", &[&V0_1, &V0_7], Isa::Moveusp);
 
-    generate_opcodes(opcodes, "010010001bcccddd", &[&V0_1, &V2_6, &V0_7], Isa::Movem);
+    generate_opcodes(opcodes, "010010001b010ddd", &[&V0_1, &V0_7], Isa::Movem);
+    generate_opcodes(opcodes, "010010001bcccddd", &[&V0_1, &V4_6, &V0_7], Isa::Movem);
     generate_opcodes(opcodes, "010010001b111ddd", &[&V0_1, &V0_1], Isa::Movem);
-    generate_opcodes(opcodes, "010011001bcccddd", &[&V0_1, &V2_6, &V0_7], Isa::Movem);
+    generate_opcodes(opcodes, "010011001bcccddd", &[&V0_1, &V2_3, &V0_7], Isa::Movem);
+    generate_opcodes(opcodes, "010011001bcccddd", &[&V0_1, &V5_6, &V0_7], Isa::Movem);
     generate_opcodes(opcodes, "010011001b111ddd", &[&V0_1, &V0_3], Isa::Movem);
 
     generate_opcodes(opcodes, "0000aaabbb001ccc", &[&V0_7, &V4_7, &V0_7], Isa::Movep);
@@ -444,6 +446,7 @@ const V2_6: [u8; 5] = [2, 3, 4, 5, 6];
 const V2_15: [u8; 14] = [2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15];
 const V4_6: [u8; 3] = [4, 5, 6];
 const V4_7: [u8; 4] = [4, 5, 6, 7];
+const V5_6: [u8; 2] = [5, 6];
 const V8_9__17: [u8; 3] = [8, 9, 17];
 const VBYTE: [u8; 256] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39,
 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79,
diff --git a/m68000/src/decoder.rs b/m68000/src/decoder.rs
index 2b086a7..8d052b3 100644
--- a/m68000/src/decoder.rs
+++ b/m68000/src/decoder.rs
@@ -1178,11 +1178,11 @@ pub static DECODER: [Isa; 65536] = [
     Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Pea, Pea, Pea, Pea, Pea, Pea, Pea, Pea,
     Pea, Pea, Pea, Pea, Pea, Pea, Pea, Pea, Pea, Pea, Pea, Pea, Unknown, Unknown, Unknown, Unknown,
     Ext, Ext, Ext, Ext, Ext, Ext, Ext, Ext, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown,
-    Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem,
+    Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown,
     Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem,
     Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown,
     Ext, Ext, Ext, Ext, Ext, Ext, Ext, Ext, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown,
-    Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem,
+    Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown,
     Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem,
     Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown,
     Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown,
@@ -1243,11 +1243,11 @@ pub static DECODER: [Isa; 65536] = [
     Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown,
     Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown,
     Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem,
-    Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem,
+    Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem,
     Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Unknown, Unknown, Unknown, Unknown,
     Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown,
     Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem,
-    Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem,
+    Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem,
     Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Unknown, Unknown, Unknown, Unknown,
     Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown,
     Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown,
-- 
2.43.0


From 8e6c00a6540ab7edc2ad49a305324d38fc7aea96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:33 +0000
Subject: [PATCH 14/16] fix: count the time of a long memory operand that is
 read then written once

---
 m68000/src/memory_access.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/m68000/src/memory_access.rs b/m68000/src/memory_access.rs
index ba9d9b6..ae47444 100644
--- a/m68000/src/memory_access.rs
+++ b/m68000/src/memory_access.rs
@@ -162,9 +162,11 @@ impl<CPU: CpuDetails> M68000<CPU> {
             AddressingMode::Drd(reg) => { self.regs.d[reg as usize].0 = value; Ok(()) },
             AddressingMode::Ard(reg) => { self.regs.a_mut(reg).0 = value; Ok(()) },
             _ => {
+                // If the address is already known, its calculation time has been counted when the operand has been read.
+                let long_time = if ea.address.is_none() { 4 } else { 0 };
                 let addr = self.get_effective_address(ea, exec_time).even()?;
                 let r = memory.set_long(addr, value).ok_or(ACCESS_ERROR);
-                *exec_time += 4;
+                *exec_time += long_time;
                 r
             },
         }
-- 
2.43.0


From 46fdc144344c30a4432b1ab918a935500b4801f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:59 +0000
Subject: [PATCH 15/16] fix: assembler refuses invalid registers in ADDA, CMPA,
 SUBA, MOVEA and MOVE sources

---
 m68000/src/assembler.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/m68000/src/assembler.rs b/m68000/src/assembler.rs
index 99aed82..64f5405 100644
--- a/m68000/src/assembler.rs
+++ b/m68000/src/assembler.rs
@@ -302,6 +302,7 @@ pub fn add(reg: u8, dir: Direction, size: Size, am: AddressingMode) -> Vec<u16>
 pub fn adda(reg: u8, size: Size, am: AddressingMode) -> Vec<u16> {
     assert!(reg <= 7, "Invalid register.");
     assert!(!size.is_byte(), "ADDA cannot be byte sized.");
+    assert!(am.verify(&MODES_01234567, &[0, 1, 2, 3, 4]), "Invalid addressing mode.");
     register_size_effective_address(0b1101, reg, size, am)
 }
 
@@ -448,6 +449,7 @@ pub fn cmp(reg: u8, size: Size, am: AddressingMode) -> Vec<u16> {
 pub fn cmpa(reg: u8, size: Size, am: AddressingMode) -> Vec<u16> {
     assert!(reg <= 7, "Invalid register.");
     assert!(!size.is_byte(), "CMPA cannot be byte sized.");
+    assert!(am.verify(&MODES_01234567, &[0, 1, 2, 3, 4]), "Invalid addressing mode.");
     register_size_effective_address(0b1011, reg, size, am)
 }
 
@@ -562,12 +564,14 @@ pub fn lsr(count_reg: u16, dir: Direction, size: Size, reg_shift: bool, reg: u16
 pub fn r#move(size: Size, dst: AddressingMode, src: AddressingMode) -> Vec<u16> {
     assert!(dst.verify(&MODES_0234567, &[0, 1]), "Invalid destination addressing mode.");
     assert!(!(src.is_ard() && size.is_byte()), "Byte size cannot be used with Address Register Direct source operand.");
+    assert!(src.verify(&MODES_01234567, &[0, 1, 2, 3, 4]), "Invalid source addressing mode.");
     size_effective_address_effective_address(size, dst, src)
 }
 
 pub fn movea(size: Size, dst_reg: u8, src: AddressingMode) -> Vec<u16> {
     assert!(dst_reg <= 7, "Invalid address register.");
     assert!(size != Size::Byte, "MOVEA cannot be byte sized.");
+    assert!(src.verify(&MODES_01234567, &[0, 1, 2, 3, 4]), "Invalid source addressing mode.");
     size_effective_address_effective_address(size, AddressingMode::Ard(dst_reg), src)
 }
 
@@ -801,6 +805,7 @@ pub fn sub(reg: u8, dir: Direction, size: Size, am: AddressingMode) -> Vec<u16>
 pub fn suba(reg: u8, size: Size, am: AddressingMode) -> Vec<u16> {
     assert!(reg <= 7, "Invalid register.");
     assert!(!size.is_byte(), "SUBA cannot be byte sized.");
+    assert!(am.verify(&MODES_01234567, &[0, 1, 2, 3, 4]), "Invalid addressing mode.");
     register_size_effective_address(0b1001, reg, size, am)
 }
 
-- 
2.43.0


From e26a580cb012ff9f9b3bbd812b909d90d49390b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:08 +0000
Subject: [PATCH 16/16] fix: bits of the whole word (0 to 15) overflowed

---
 m68000/src/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/m68000/src/utils.rs b/m68000/src/utils.rs
index f34bc17..2de7e55 100644
--- a/m68000/src/utils.rs
+++ b/m68000/src/utils.rs
@@ -19,7 +19,7 @@ pub const fn bit(data: u16, bit: u16) -> bool {
 /// Returns bits `[beg, end]` inclusive, starting at 0.
 #[inline(always)]
 pub const fn bits(d: u16, beg: u16, end: u16) -> u16 {
-    let mask = (1 << (end + 1 - beg)) - 1;
+    let mask = u16::MAX >> (15 + beg - end);
     d >> beg & mask
 }
 
-- 
2.43.0

