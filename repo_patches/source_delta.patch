From b4989023483862c1245da16628fa31741a539d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:45 +0000
Subject: [PATCH 01/12] fix: use an 8-bit displacement only when it fits in a
 signed byte

disp8 is sign extended by the CPU, so displacements 128..=255 addressed
memory below the base register and 256 was truncated to 0.
---
 at-x64/src/encoder/mod.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/at-x64/src/encoder/mod.rs b/at-x64/src/encoder/mod.rs
index febf990..192cbaa 100644
--- a/at-x64/src/encoder/mod.rs
+++ b/at-x64/src/encoder/mod.rs
@@ -310,13 +310,13 @@ impl RegMemLike for Mem64 {
             // treat [RBP] and [R13] as [RBP + 0] and [R13 + 0] resprectively
             RegOffset(RBP | R13, 0) => 0b01,
             RegOffset(_, 0) => 0b00,
-            RegOffset(_, 1..=256) => 0b01,
+            RegOffset(_, 1..=127) => 0b01,
             RegOffset(_, _) => 0b10,
             RipOffset(_) => 0b00,
             Sib { base: None, .. } => 0b00,
             Sib {
                 base: Some(RBP | R13),
-                disp: 0..=256,
+                disp: 0..=127,
                 ..
             } => 0b01,
             Sib {
@@ -324,7 +324,7 @@ impl RegMemLike for Mem64 {
                 ..
             } => 0b10,
             Sib { disp: 0, .. } => 0b00,
-            Sib { disp: 1..=256, .. } => 0b01,
+            Sib { disp: 1..=127, .. } => 0b01,
             Sib { .. } => 0b10,
         }
     }
@@ -370,7 +370,7 @@ impl RegMemLike for Mem64 {
         match self {
             RegOffset(RBP | R13, 0) => BytesAtMost::from(0 as u8),
             RegOffset(_, 0) => BytesAtMost::with_len(0),
-            RegOffset(_, disp @ 1..=256) => BytesAtMost::from(*disp as u8),
+            RegOffset(_, disp @ 1..=127) => BytesAtMost::from(*disp as u8),
             RegOffset(_, disp) => BytesAtMost::from(*disp),
             RipOffset(disp) => BytesAtMost::from(*disp),
             Sib {
@@ -383,7 +383,7 @@ impl RegMemLike for Mem64 {
             } => BytesAtMost::from(0u8),
             Sib { disp: 0, .. } => BytesAtMost::with_len(0),
             Sib {
-                disp: disp @ 1..=256,
+                disp: disp @ 1..=127,
                 ..
             } => BytesAtMost::from(*disp as u8),
             Sib { disp, .. } => BytesAtMost::from(*disp),
-- 
2.43.0


From cd606ff82a75a8dbc8fe9f7d8d74149915f412a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:45 +0000
Subject: [PATCH 02/12] fix: write absolute symbols with NO_SECT

An N_ABS symbol must have n_sect == NO_SECT (see NType::Abs); the ordinal of
the section it was listed under was written instead.
---
 at-obj/src/macho.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/at-obj/src/macho.rs b/at-obj/src/macho.rs
index 3455a0f..0ea59c2 100644
--- a/at-obj/src/macho.rs
+++ b/at-obj/src/macho.rs
@@ -328,7 +328,7 @@ fn gen_nlist64s(object: &Object, sections: &Vec<Section64>, stab: &StringTable)
                         n_type: NType::Abs,
                         n_ext: *ext,
                     },
-                    n_sect: idx as u8,
+                    n_sect: NList64::NO_SECT,
                     n_desc: 0,
                     n_value: *val,
                 },
-- 
2.43.0


From 5e66b23df2b5b137e3f0ce318c79c78d6caa0e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:45 +0000
Subject: [PATCH 03/12] fix: decode the whole n_type byte of debug symbol
 entries

Only the N_STAB bits were looked at, so every stab type in 0x20..=0x3f (for
example N_FUN = 0x24) was silently read as N_GSYM.
---
 at-mac/src/nlist.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/at-mac/src/nlist.rs b/at-mac/src/nlist.rs
index 76b1135..f928991 100644
--- a/at-mac/src/nlist.rs
+++ b/at-mac/src/nlist.rs
@@ -91,7 +91,7 @@ impl NTypeField {
                 n_ext,
             }
         } else {
-            NTypeField::Stab(DebugSymbol::from_u8(n_stab))
+            NTypeField::Stab(DebugSymbol::from_u8(n))
         }
     }
 
-- 
2.43.0


From 33aa288daf8df9245524376ffb7ed10970d693b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:45 +0000
Subject: [PATCH 04/12] fix: do not overflow on 64-bit expressions

Operands and results are 64-bit numbers, but the sum was computed with checked
i64 arithmetic: `0x8000000000000000 - 1` panicked in debug builds.
---
 at-asm/src/parsers/expr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/at-asm/src/parsers/expr.rs b/at-asm/src/parsers/expr.rs
index 053dd65..66e4ed7 100644
--- a/at-asm/src/parsers/expr.rs
+++ b/at-asm/src/parsers/expr.rs
@@ -54,7 +54,7 @@ impl ParseStr for Expr {
             _ => return Err(ParseError::new("invalid rhs")),
         };
 
-        let res = lhs as i64 + sign_to_u64(sign) * rhs as i64;
+        let res = (lhs as i64).wrapping_add(sign_to_u64(sign).wrapping_mul(rhs as i64));
 
         Ok(Some(Expr(res as u64)))
     }
-- 
2.43.0


From c49e3fc94d4e34b6a4d14aba452ba7966f8a55dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:06 +0000
Subject: [PATCH 05/12] fix: push immediates 128..=255 as 32-bit values

`push imm8` sign extends its operand, so `push 200` pushed -56.
---
 at-asm/src/parsers/instruction/push.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/at-asm/src/parsers/instruction/push.rs b/at-asm/src/parsers/instruction/push.rs
index 26cd032..261954f 100644
--- a/at-asm/src/parsers/instruction/push.rs
+++ b/at-asm/src/parsers/instruction/push.rs
@@ -26,8 +26,8 @@ pub fn parse_str(s: &str) -> Result<Instruction, ParseError> {
         return Ok(Instruction::new(push));
     }
 
-    // if operand is u8
-    if let Some(imm) = u8::try_parse_str(operand_str)? {
+    // if operand is u8 and not changed by sign extension
+    if let Some(imm @ 0..=0x7f) = u8::try_parse_str(operand_str)? {
         let push = Push::new(imm);
         return Ok(Instruction::new(push));
     }
-- 
2.43.0


From ad2130a9582a3faa6ebd784461f0cb5db527637d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:06 +0000
Subject: [PATCH 06/12] fix: reject trailing tokens after an expression

`mov rax, 1 + 2 + 3` was silently assembled as `mov rax, 3`.
---
 at-asm/src/parsers/expr.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/at-asm/src/parsers/expr.rs b/at-asm/src/parsers/expr.rs
index 66e4ed7..bcb9123 100644
--- a/at-asm/src/parsers/expr.rs
+++ b/at-asm/src/parsers/expr.rs
@@ -54,6 +54,10 @@ impl ParseStr for Expr {
             _ => return Err(ParseError::new("invalid rhs")),
         };
 
+        if tokens.next().is_some() {
+            return Err(ParseError::eol_expected());
+        }
+
         let res = (lhs as i64).wrapping_add(sign_to_u64(sign).wrapping_mul(rhs as i64));
 
         Ok(Some(Expr(res as u64)))
-- 
2.43.0


From a8e3eaacaec3f19fb1b18fa31465b0ee2bdab346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:06 +0000
Subject: [PATCH 07/12] fix: reject trailing tokens after a push operand

`push 1 + 2` was silently assembled as `push 1`.
---
 at-asm/src/parsers/instruction/push.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/at-asm/src/parsers/instruction/push.rs b/at-asm/src/parsers/instruction/push.rs
index 261954f..10431bb 100644
--- a/at-asm/src/parsers/instruction/push.rs
+++ b/at-asm/src/parsers/instruction/push.rs
@@ -20,6 +20,10 @@ pub fn parse_str(s: &str) -> Result<Instruction, ParseError> {
         }
     };
 
+    if tokens.next().is_some() {
+        return Err(ParseError::eol_expected());
+    }
+
     // if operand is Reg64
     if let Some(reg) = Reg64::try_parse_str(operand_str)? {
         let push = Push::new(reg);
-- 
2.43.0


From a48d85fb2bf8d8a8b4666671e1c39d3b149a2559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:06 +0000
Subject: [PATCH 08/12] fix: reject operands of ret and syscall

`ret 8` was silently assembled as a plain `ret`.
---
 at-asm/src/parsers/instruction/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/at-asm/src/parsers/instruction/mod.rs b/at-asm/src/parsers/instruction/mod.rs
index 9eb96f8..7914f8f 100644
--- a/at-asm/src/parsers/instruction/mod.rs
+++ b/at-asm/src/parsers/instruction/mod.rs
@@ -40,9 +40,12 @@ impl Instruction {
 
 impl ParseStr for Instruction {
     fn try_parse_str(s: &str) -> Result<Option<Instruction>, ParseError> {
-        match s.split_whitespace().next() {
+        let mut tokens = s.split_whitespace();
+
+        match tokens.next() {
             Some("mov") => Ok(Some(mov::parse_str(s)?)),
             Some("push") => Ok(Some(push::parse_str(s)?)),
+            Some("ret" | "syscall") if tokens.next().is_some() => Err(ParseError::eol_expected()),
             Some("ret") => Ok(Some(Instruction::new(Ret::new()))),
             Some("syscall") => Ok(Some(Instruction::new(Syscall::new()))),
             _ => Ok(None),
-- 
2.43.0


From db634c1e78581349a4a862e2832e1e75aa106e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:06 +0000
Subject: [PATCH 09/12] fix: accept only one 0x prefix

`0x0x10` was silently read as `0x10`.
---
 at-asm/src/parsers/num.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/at-asm/src/parsers/num.rs b/at-asm/src/parsers/num.rs
index 4a167ba..3adbb81 100644
--- a/at-asm/src/parsers/num.rs
+++ b/at-asm/src/parsers/num.rs
@@ -7,8 +7,7 @@ macro_rules! impl_parse_str {
             /// Never error.
             /// Because another number format possibly fit.
             fn try_parse_str(s: &str) -> Result<Option<Self>, ParseError> {
-                if s.starts_with("0x") {
-                    let s = s.trim_start_matches("0x");
+                if let Some(s) = s.strip_prefix("0x") {
                     Ok(Self::from_str_radix(s, 16).ok())
                 } else {
                     Ok(Self::from_str_radix(s, 10).ok())
-- 
2.43.0


From 2bbec9b2fd3adc4e0664ea1c95478321a54d2ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:06 +0000
Subject: [PATCH 10/12] fix: keep the symbols of sections without any bytes

A section of size 0 was left out of the object file together with the symbols
defined in it, e.g. every label of a .bss section, and a relocation against
such a label panicked.
---
 at-obj/src/object.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/at-obj/src/object.rs b/at-obj/src/object.rs
index c0ced39..cb8e329 100644
--- a/at-obj/src/object.rs
+++ b/at-obj/src/object.rs
@@ -76,7 +76,7 @@ impl<'a> SectionRef<'a> {
     }
 
     pub(crate) fn is_empty(&self) -> bool {
-        self.vm_size() == 0
+        self.vm_size() == 0 && self.symbols().is_empty()
     }
 
     pub(crate) fn file_data(&self) -> &[u8] {
-- 
2.43.0


From a8f7b394e42099a5d6a257b504cc7889f88c03af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:45 +0000
Subject: [PATCH 11/12] fix: do not touch the output file before assembling
 succeeded

The output file was truncated before the input was read: a source error
destroyed the previous output, and with `-o` naming the input file the source
itself was lost before it was read.
---
 at-asm/src/main.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/at-asm/src/main.rs b/at-asm/src/main.rs
index 6c022fb..5afdb3d 100644
--- a/at-asm/src/main.rs
+++ b/at-asm/src/main.rs
@@ -1,5 +1,5 @@
 use at_asm::Assembler;
-use std::{fs::OpenOptions, path::PathBuf, process::exit};
+use std::{fs::OpenOptions, io::Write as _, path::PathBuf, process::exit};
 
 pub fn main() {
     let config = Config::init();
@@ -9,6 +9,12 @@ pub fn main() {
         .open(&config.input_path)
         .unwrap();
 
+    // 出力先のファイルに触れるのは、アセンブルが成功した後だけ
+    let mut output = Vec::new();
+    Assembler::new()
+        .read_from(&mut input_file)
+        .write_into(&mut output);
+
     let mut output_file = OpenOptions::new()
         .write(true)
         .truncate(true)
@@ -16,9 +22,7 @@ pub fn main() {
         .open(&config.output_path)
         .unwrap();
 
-    Assembler::new()
-        .read_from(&mut input_file)
-        .write_into(&mut output_file);
+    output_file.write_all(&output).unwrap();
 }
 
 struct Config {
-- 
2.43.0


From 5a914de92f004c13355be02ecbfd73cfbe8dd22f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:51 +0000
Subject: [PATCH 12/12] fix: compare load command sizes without 32-bit overflow

---
 at-mac/src/load_command/build_version.rs | 6 +++++-
 at-mac/src/load_command/segment64.rs     | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/at-mac/src/load_command/build_version.rs b/at-mac/src/load_command/build_version.rs
index 5366ae4..93c1508 100644
--- a/at-mac/src/load_command/build_version.rs
+++ b/at-mac/src/load_command/build_version.rs
@@ -41,7 +41,11 @@ impl BuildVersionCommand {
 
         let ntools = read.read_u32_in(endian);
 
-        assert_eq!(cmdsize, Self::SIZE + BuildToolVersion::SIZE * ntools);
+        // computed in 64 bits, as the total of an inconsistent command may not fit in 32
+        assert_eq!(
+            cmdsize as u64,
+            Self::SIZE as u64 + BuildToolVersion::SIZE as u64 * ntools as u64
+        );
 
         BuildVersionCommand {
             cmd,
diff --git a/at-mac/src/load_command/segment64.rs b/at-mac/src/load_command/segment64.rs
index f31991c..aaeda7c 100644
--- a/at-mac/src/load_command/segment64.rs
+++ b/at-mac/src/load_command/segment64.rs
@@ -55,7 +55,11 @@ impl SegmentCommand64 {
         let nsects = read.read_u32_in(endian);
         let flags = read.read_u32_in(endian);
 
-        assert_eq!(cmdsize, Self::SIZE + nsects * Section64::SIZE);
+        // computed in 64 bits, as the total of an inconsistent command may not fit in 32
+        assert_eq!(
+            cmdsize as u64,
+            Self::SIZE as u64 + nsects as u64 * Section64::SIZE as u64
+        );
 
         SegmentCommand64 {
             cmd,
-- 
2.43.0

