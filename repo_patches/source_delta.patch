From ac07f0744a665f3357f10437601a913a8e9aefbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:03:54 +0000
Subject: [PATCH 01/23] fix: reject jalr words whose funct3 is not zero

---
 src/decode/base_i.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/decode/base_i.rs b/src/decode/base_i.rs
index 6be5892..4304127 100644
--- a/src/decode/base_i.rs
+++ b/src/decode/base_i.rs
@@ -15,7 +15,10 @@ pub mod bit_32 {
             0b011_0111 => Ok(BaseIOpcode::LUI),
             0b001_0111 => Ok(BaseIOpcode::AUIPC),
             0b110_1111 => Ok(BaseIOpcode::JAL),
-            0b110_0111 => Ok(BaseIOpcode::JALR),
+            0b110_0111 => match funct3 {
+                0b000 => Ok(BaseIOpcode::JALR),
+                _ => Err(DecodingError::InvalidFunct3),
+            },
             0b110_0011 => match funct3 {
                 0b000 => Ok(BaseIOpcode::BEQ),
                 0b001 => Ok(BaseIOpcode::BNE),
-- 
2.43.0


From 94442584126863ec62301fb07c306caf914863a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:03:55 +0000
Subject: [PATCH 02/23] fix: check funct7 for sll, slt, sltu, xor, or, and,
 slliw and sllw

---
 src/decode/base_i.rs | 40 ++++++++++++++++++++++++++++++++--------
 1 file changed, 32 insertions(+), 8 deletions(-)

diff --git a/src/decode/base_i.rs b/src/decode/base_i.rs
index 4304127..90bf6e1 100644
--- a/src/decode/base_i.rs
+++ b/src/decode/base_i.rs
@@ -82,17 +82,35 @@ pub mod bit_32 {
                     0b010_0000 => Ok(BaseIOpcode::SUB),
                     _ => Err(DecodingError::InvalidFunct7),
                 },
-                0b001 => Ok(BaseIOpcode::SLL),
-                0b010 => Ok(BaseIOpcode::SLT),
-                0b011 => Ok(BaseIOpcode::SLTU),
-                0b100 => Ok(BaseIOpcode::XOR),
+                0b001 => match funct7 {
+                    0b000_0000 => Ok(BaseIOpcode::SLL),
+                    _ => Err(DecodingError::InvalidFunct7),
+                },
+                0b010 => match funct7 {
+                    0b000_0000 => Ok(BaseIOpcode::SLT),
+                    _ => Err(DecodingError::InvalidFunct7),
+                },
+                0b011 => match funct7 {
+                    0b000_0000 => Ok(BaseIOpcode::SLTU),
+                    _ => Err(DecodingError::InvalidFunct7),
+                },
+                0b100 => match funct7 {
+                    0b000_0000 => Ok(BaseIOpcode::XOR),
+                    _ => Err(DecodingError::InvalidFunct7),
+                },
                 0b101 => match funct7 {
                     0b000_0000 => Ok(BaseIOpcode::SRL),
                     0b010_0000 => Ok(BaseIOpcode::SRA),
                     _ => Err(DecodingError::InvalidFunct7),
                 },
-                0b110 => Ok(BaseIOpcode::OR),
-                0b111 => Ok(BaseIOpcode::AND),
+                0b110 => match funct7 {
+                    0b000_0000 => Ok(BaseIOpcode::OR),
+                    _ => Err(DecodingError::InvalidFunct7),
+                },
+                0b111 => match funct7 {
+                    0b000_0000 => Ok(BaseIOpcode::AND),
+                    _ => Err(DecodingError::InvalidFunct7),
+                },
                 _ => Err(DecodingError::InvalidFunct3),
             },
             0b111_0011 => match funct3 {
@@ -108,7 +126,10 @@ pub mod bit_32 {
             },
             0b001_1011 => match funct3 {
                 0b000 => only_rv64(BaseIOpcode::ADDIW, isa),
-                0b001 => only_rv64(BaseIOpcode::SLLIW, isa),
+                0b001 => match funct7 {
+                    0b000_0000 => only_rv64(BaseIOpcode::SLLIW, isa),
+                    _ => Err(DecodingError::InvalidFunct7),
+                },
                 0b101 => match funct7 {
                     0b000_0000 => only_rv64(BaseIOpcode::SRLIW, isa),
                     0b010_0000 => only_rv64(BaseIOpcode::SRAIW, isa),
@@ -122,7 +143,10 @@ pub mod bit_32 {
                     0b010_0000 => only_rv64(BaseIOpcode::SUBW, isa),
                     _ => Err(DecodingError::InvalidFunct7),
                 },
-                0b001 => only_rv64(BaseIOpcode::SLLW, isa),
+                0b001 => match funct7 {
+                    0b000_0000 => only_rv64(BaseIOpcode::SLLW, isa),
+                    _ => Err(DecodingError::InvalidFunct7),
+                },
                 0b101 => match funct7 {
                     0b000_0000 => only_rv64(BaseIOpcode::SRLW, isa),
                     0b010_0000 => only_rv64(BaseIOpcode::SRAW, isa),
-- 
2.43.0


From b1f0eab61bb48d402f972a87ca81e76a13f44163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:03:55 +0000
Subject: [PATCH 03/23] fix: reject ecall and ebreak words with a non-zero rd
 or rs1

---
 src/decode/base_i.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/decode/base_i.rs b/src/decode/base_i.rs
index 90bf6e1..3be80c2 100644
--- a/src/decode/base_i.rs
+++ b/src/decode/base_i.rs
@@ -7,6 +7,8 @@ pub mod bit_32 {
     pub fn parse_opcode(inst: u32, isa: Isa) -> Result<BaseIOpcode, DecodingError> {
         let opmap: u8 = u8::try_from(inst.slice(6, 0)).unwrap();
         let funct3: u8 = u8::try_from(inst.slice(14, 12)).unwrap();
+        let rd: u8 = u8::try_from(inst.slice(11, 7)).unwrap();
+        let rs1: u8 = u8::try_from(inst.slice(19, 15)).unwrap();
         let funct5: u8 = u8::try_from(inst.slice(24, 20)).unwrap();
         let funct6: u8 = u8::try_from(inst.slice(31, 26)).unwrap();
         let funct7: u8 = u8::try_from(inst.slice(31, 25)).unwrap();
@@ -116,6 +118,10 @@ pub mod bit_32 {
             0b111_0011 => match funct3 {
                 0b000 => match funct7 {
                     0b000_0000 => match funct5 {
+                        // rd and rs1 must be zero.
+                        0b00000 | 0b00001 if rd != 0 || rs1 != 0 => {
+                            Err(DecodingError::IllegalInstruction)
+                        }
                         0b00000 => Ok(BaseIOpcode::ECALL),
                         0b00001 => Ok(BaseIOpcode::EBREAK),
                         _ => Err(DecodingError::InvalidFunct5),
-- 
2.43.0


From e99d400db452b9fbedcdb74695544f98f5c3376f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:03:56 +0000
Subject: [PATCH 04/23] fix: reject sfence.vma words with a non-zero rd

---
 src/decode/priv_extension.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/decode/priv_extension.rs b/src/decode/priv_extension.rs
index 5d18af3..1ee57e2 100644
--- a/src/decode/priv_extension.rs
+++ b/src/decode/priv_extension.rs
@@ -6,13 +6,17 @@ pub mod bit_32 {
         let _opmap: u8 = u8::try_from(inst.slice(6, 0)).unwrap();
         let _funct3: u8 = u8::try_from(inst.slice(14, 12)).unwrap();
         let funct7: u8 = u8::try_from(inst.slice(31, 25)).unwrap();
+        let rd: u8 = u8::try_from(inst.slice(11, 7)).unwrap();
 
         match inst {
             0b0001_0000_0010_0000_0000_0000_0111_0011 => Ok(PrivOpcode::SRET),
             0b0011_0000_0010_0000_0000_0000_0111_0011 => Ok(PrivOpcode::MRET),
             0b0001_0000_0101_0000_0000_0000_0111_0011 => Ok(PrivOpcode::WFI),
             _ => match funct7 {
-                0b000_1001 => Ok(PrivOpcode::SFENCE_VMA),
+                0b000_1001 => match rd {
+                    0 => Ok(PrivOpcode::SFENCE_VMA),
+                    _ => Err(DecodingError::IllegalInstruction),
+                },
                 _ => Err(DecodingError::InvalidFunct7),
             },
         }
-- 
2.43.0


From 1507b0b94d6dc22fc524e98cfe0112e105126029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:03:56 +0000
Subject: [PATCH 05/23] fix: reject lr.w and lr.d words with a non-zero rs2

---
 src/decode/a_extension.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/decode/a_extension.rs b/src/decode/a_extension.rs
index 63468f1..4d0d510 100644
--- a/src/decode/a_extension.rs
+++ b/src/decode/a_extension.rs
@@ -7,10 +7,12 @@ pub mod bit_32 {
         let opmap: u8 = u8::try_from(inst.slice(6, 0)).unwrap();
         let funct3: u8 = u8::try_from(inst.slice(14, 12)).unwrap();
         let funct7: u8 = u8::try_from(inst.slice(31, 27)).unwrap();
+        let rs2: u8 = u8::try_from(inst.slice(24, 20)).unwrap();
 
         match opmap {
             0b010_1111 => match funct3 {
                 0b010 => match funct7 {
+                    0b00010 if rs2 != 0 => Err(DecodingError::IllegalInstruction),
                     0b00010 => Ok(AOpcode::LR_W),
                     0b00011 => Ok(AOpcode::SC_W),
                     0b00001 => Ok(AOpcode::AMOSWAP_W),
@@ -25,6 +27,7 @@ pub mod bit_32 {
                     _ => Err(DecodingError::InvalidFunct7),
                 },
                 0b011 => match funct7 {
+                    0b00010 if rs2 != 0 => Err(DecodingError::IllegalInstruction),
                     0b00010 => only_rv64(AOpcode::LR_D, isa),
                     0b00011 => only_rv64(AOpcode::SC_D, isa),
                     0b00001 => only_rv64(AOpcode::AMOSWAP_D, isa),
-- 
2.43.0


From 54e0e41f19ab925277c08f4785d329c29cdedcf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:03:57 +0000
Subject: [PATCH 06/23] fix: decode counter reads with a non-zero rs1 as csrrs

---
 src/decode/inst_32.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/decode/inst_32.rs b/src/decode/inst_32.rs
index c176267..b811a38 100644
--- a/src/decode/inst_32.rs
+++ b/src/decode/inst_32.rs
@@ -131,6 +131,7 @@ impl DecodeUtil for u32 {
         let funct3: u8 = u8::try_from(self.slice(14, 12)).unwrap();
         let funct5: u8 = u8::try_from(self.slice(31, 27)).unwrap();
         let funct7: u8 = u8::try_from(self.slice(31, 25)).unwrap();
+        let rs1: u8 = u8::try_from(self.slice(19, 15)).unwrap();
         let csr: u16 = u16::try_from(self.slice(31, 20)).unwrap();
 
         match opmap {
@@ -161,7 +162,7 @@ impl DecodeUtil for u32 {
                 },
                 0b010 => match csr {
                     // csrrs rd, (cycle|time|instret), zero
-                    0xc00..=0xc02 | 0xc80..=0xc82 => Ok(Extensions::Zicntr),
+                    0xc00..=0xc02 | 0xc80..=0xc82 if rs1 == 0 => Ok(Extensions::Zicntr),
                     _ => Ok(Extensions::Zicsr),
                 },
                 0b100 => Ok(Extensions::Zicfiss),
-- 
2.43.0


From 122dbac728c8aaf3eeb248a6e24c3cbd889b4878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:03:58 +0000
Subject: [PATCH 07/23] fix: do not decode rdcycleh, rdtimeh and rdinstreth on
 Rv64

---
 src/decode/inst_32.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/decode/inst_32.rs b/src/decode/inst_32.rs
index b811a38..df5271f 100644
--- a/src/decode/inst_32.rs
+++ b/src/decode/inst_32.rs
@@ -3,6 +3,7 @@ use super::{
     zicntr_extension, zicsr_extension, zifencei_extension,
 };
 use super::{Decode, DecodeUtil, DecodingError};
+use crate::instruction::zicntr_extension::ZicntrOpcode;
 use crate::instruction::{InstFormat, Instruction, OpcodeKind};
 use crate::{Extensions, Isa};
 
@@ -45,9 +46,16 @@ impl Decode for u32 {
             Ok(Extensions::Zicfiss) => Ok(OpcodeKind::Zicfiss(
                 zicfiss_extension::bit_32::parse_opcode(self)?,
             )),
-            Ok(Extensions::Zicntr) => Ok(OpcodeKind::Zicntr(
-                zicntr_extension::bit_32::parse_opcode(self)?,
-            )),
+            Ok(Extensions::Zicntr) => match (zicntr_extension::bit_32::parse_opcode(self)?, isa) {
+                // rd(cycle|time|instret)h do not exist on Rv64.
+                (
+                    ZicntrOpcode::RDCYCLE_H | ZicntrOpcode::RDTIME_H | ZicntrOpcode::RDINSTRET_H,
+                    Isa::Rv64,
+                ) => Ok(OpcodeKind::Zicsr(zicsr_extension::bit_32::parse_opcode(
+                    self,
+                )?)),
+                (opc, _) => Ok(OpcodeKind::Zicntr(opc)),
+            },
             Ok(Extensions::Zicboz) => Ok(OpcodeKind::Zicboz(
                 zicboz_extension::bit_32::parse_opcode(self)?,
             )),
-- 
2.43.0


From 0f6cf4d1090a15c023479d52df04d96897110721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:03:58 +0000
Subject: [PATCH 08/23] fix: report ssamoswap.d as Rv64 only

---
 src/decode/inst_32.rs           | 2 +-
 src/decode/zicfiss_extension.rs | 7 ++++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/decode/inst_32.rs b/src/decode/inst_32.rs
index df5271f..d36c4e8 100644
--- a/src/decode/inst_32.rs
+++ b/src/decode/inst_32.rs
@@ -44,7 +44,7 @@ impl Decode for u32 {
                 self,
             )?)),
             Ok(Extensions::Zicfiss) => Ok(OpcodeKind::Zicfiss(
-                zicfiss_extension::bit_32::parse_opcode(self)?,
+                zicfiss_extension::bit_32::parse_opcode(self, isa)?,
             )),
             Ok(Extensions::Zicntr) => match (zicntr_extension::bit_32::parse_opcode(self)?, isa) {
                 // rd(cycle|time|instret)h do not exist on Rv64.
diff --git a/src/decode/zicfiss_extension.rs b/src/decode/zicfiss_extension.rs
index fab2de4..1a4704c 100644
--- a/src/decode/zicfiss_extension.rs
+++ b/src/decode/zicfiss_extension.rs
@@ -1,8 +1,9 @@
 pub mod bit_32 {
-    use super::super::{DecodeUtil, DecodingError};
+    use super::super::{only_rv64, DecodeUtil, DecodingError};
     use crate::instruction::zicfiss_extension::ZicfissOpcode;
+    use crate::Isa;
 
-    pub fn parse_opcode(inst: u32) -> Result<ZicfissOpcode, DecodingError> {
+    pub fn parse_opcode(inst: u32, isa: Isa) -> Result<ZicfissOpcode, DecodingError> {
         let opmap: u8 = u8::try_from(inst.slice(6, 0)).unwrap();
         let funct3: u8 = u8::try_from(inst.slice(14, 12)).unwrap();
         let rs1: u8 = u8::try_from(inst.slice(19, 15)).unwrap();
@@ -22,7 +23,7 @@ pub mod bit_32 {
             },
             0b010_1111 => match funct3 {
                 0b010 => Ok(ZicfissOpcode::SSAMOSWAP_W),
-                0b011 => Ok(ZicfissOpcode::SSAMOSWAP_D),
+                0b011 => only_rv64(ZicfissOpcode::SSAMOSWAP_D, isa),
                 _ => Err(DecodingError::InvalidFunct3),
             },
             _ => Err(DecodingError::InvalidOpcode),
-- 
2.43.0


From b3cb09e1b5f6c742db5ee0155d57746b8197cd90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:03:59 +0000
Subject: [PATCH 09/23] fix: decode sspush, sspopchk and ssrdp only with their
 fixed fields

---
 src/decode/zicfiss_extension.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/decode/zicfiss_extension.rs b/src/decode/zicfiss_extension.rs
index 1a4704c..7603419 100644
--- a/src/decode/zicfiss_extension.rs
+++ b/src/decode/zicfiss_extension.rs
@@ -6,16 +6,21 @@ pub mod bit_32 {
     pub fn parse_opcode(inst: u32, isa: Isa) -> Result<ZicfissOpcode, DecodingError> {
         let opmap: u8 = u8::try_from(inst.slice(6, 0)).unwrap();
         let funct3: u8 = u8::try_from(inst.slice(14, 12)).unwrap();
+        let rd: u8 = u8::try_from(inst.slice(11, 7)).unwrap();
         let rs1: u8 = u8::try_from(inst.slice(19, 15)).unwrap();
         let funct7_rs2: u16 = u16::try_from(inst.slice(31, 20)).unwrap();
 
         match opmap {
             0b111_0011 => match funct3 {
                 0b100 => match funct7_rs2 {
-                    0b1100_1110_0001 | 0b1100_1110_0101 => Ok(ZicfissOpcode::SSPUSH),
-                    0b1100_1101_1100 => match rs1 {
-                        0b0_0000 => Ok(ZicfissOpcode::SSRDP),
-                        _ => Ok(ZicfissOpcode::SSPOPCHK),
+                    0b1100_1110_0001 | 0b1100_1110_0101 => match (rs1, rd) {
+                        (0, 0) => Ok(ZicfissOpcode::SSPUSH),
+                        _ => Err(DecodingError::InvalidOpcode),
+                    },
+                    0b1100_1101_1100 => match (rs1, rd) {
+                        (0, 1..) => Ok(ZicfissOpcode::SSRDP),
+                        (1 | 5, 0) => Ok(ZicfissOpcode::SSPOPCHK),
+                        _ => Err(DecodingError::InvalidOpcode),
                     },
                     _ => Err(DecodingError::InvalidOpcode),
                 },
-- 
2.43.0


From 097b2d576d5db129ff756103e038fe9a6203f397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:04:00 +0000
Subject: [PATCH 10/23] fix: reject reserved compressed encodings

---
 src/decode/c_extension.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/decode/c_extension.rs b/src/decode/c_extension.rs
index 5b59a6b..e794259 100644
--- a/src/decode/c_extension.rs
+++ b/src/decode/c_extension.rs
@@ -3,8 +3,10 @@ pub mod bit_16 {
     use crate::instruction::c_extension::COpcode;
     use crate::Isa;
 
-    fn quadrant0(_inst: u16, opmap: u8, isa: Isa) -> Result<COpcode, DecodingError> {
+    fn quadrant0(inst: u16, opmap: u8, isa: Isa) -> Result<COpcode, DecodingError> {
         match opmap {
+            // nzuimm must not be zero.
+            0b000 if inst.slice(12, 5) == 0 => Err(DecodingError::IllegalInstruction),
             0b000 => Ok(COpcode::ADDI4SPN),
             0b010 => Ok(COpcode::LW),
             0b011 => only_rv64(COpcode::LD, isa),
@@ -27,10 +29,18 @@ pub mod bit_16 {
             },
             0b001 => match isa {
                 Isa::Rv32 => Ok(COpcode::JAL),
-                Isa::Rv64 => Ok(COpcode::ADDIW),
+                Isa::Rv64 => match mi_flag {
+                    // rd must not be zero.
+                    0b00000 => Err(DecodingError::IllegalInstruction),
+                    _ => Ok(COpcode::ADDIW),
+                },
             },
             0b010 => Ok(COpcode::LI),
             0b011 => match mi_flag {
+                // nzimm must not be zero.
+                0b00010 if bit_12 == 0 && inst.slice(6, 2) == 0 => {
+                    Err(DecodingError::IllegalInstruction)
+                }
                 0b00010 => Ok(COpcode::ADDI16SP),
                 _ => Ok(COpcode::LUI),
             },
@@ -69,10 +79,14 @@ pub mod bit_16 {
 
         match opmap {
             0b000 => Ok(COpcode::SLLI),
+            // rd must not be zero.
+            0b010 | 0b011 if mi_flag == 0 => Err(DecodingError::IllegalInstruction),
             0b010 => Ok(COpcode::LWSP),
             0b011 => only_rv64(COpcode::LDSP, isa),
             0b100 => match hi_flag {
                 0b0 => match lo_flag {
+                    // rs1 must not be zero.
+                    0b0 if mi_flag == 0 => Err(DecodingError::IllegalInstruction),
                     0b0 => Ok(COpcode::JR),
                     _ => Ok(COpcode::MV),
                 },
-- 
2.43.0


From 25b483eecc2940f4f1d9dc3c167d3ef568e11f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:04:00 +0000
Subject: [PATCH 11/23] fix: reject compressed shifts by 32 or more on Rv32

---
 src/decode/c_extension.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/decode/c_extension.rs b/src/decode/c_extension.rs
index e794259..f4bef1e 100644
--- a/src/decode/c_extension.rs
+++ b/src/decode/c_extension.rs
@@ -45,6 +45,10 @@ pub mod bit_16 {
                 _ => Ok(COpcode::LUI),
             },
             0b100 => match sr_flag {
+                // shamt[5] must be zero on Rv32.
+                0b00 | 0b01 if bit_12 == 1 && matches!(isa, Isa::Rv32) => {
+                    Err(DecodingError::IllegalInstruction)
+                }
                 0b00 => Ok(COpcode::SRLI),
                 0b01 => Ok(COpcode::SRAI),
                 0b10 => Ok(COpcode::ANDI),
@@ -78,6 +82,10 @@ pub mod bit_16 {
         let hi_flag: u8 = u8::try_from(inst.slice(12, 12)).unwrap();
 
         match opmap {
+            // shamt[5] must be zero on Rv32.
+            0b000 if hi_flag == 1 && matches!(isa, Isa::Rv32) => {
+                Err(DecodingError::IllegalInstruction)
+            }
             0b000 => Ok(COpcode::SLLI),
             // rd must not be zero.
             0b010 | 0b011 if mi_flag == 0 => Err(DecodingError::IllegalInstruction),
-- 
2.43.0


From bfffa96c495a7f9d9706f2b806e6c5d8cedb9f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:04:01 +0000
Subject: [PATCH 12/23] fix: return an error instead of panicking for Zicfiss
 opcodes of the other width

---
 src/decode/inst_16.rs | 17 +++++++++++++----
 src/decode/inst_32.rs | 13 +++++++++++++
 2 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/src/decode/inst_16.rs b/src/decode/inst_16.rs
index e49bc0e..dc96dc8 100644
--- a/src/decode/inst_16.rs
+++ b/src/decode/inst_16.rs
@@ -1,6 +1,7 @@
 use super::{c_extension, zicfiss_extension};
 use super::{Decode, DecodeUtil, DecodingError};
 
+use crate::instruction::zicfiss_extension::ZicfissOpcode;
 use crate::instruction::{InstFormat, Instruction, OpcodeKind};
 use crate::{Extensions, Isa};
 
@@ -43,7 +44,9 @@ impl Decode for u16 {
     fn parse_rd(self, opkind: &OpcodeKind) -> Result<Option<usize>, DecodingError> {
         match opkind {
             OpcodeKind::C(opc) => Ok(c_extension::bit_16::parse_rd(self, opc)),
-            OpcodeKind::Zicfiss(opc) => Ok(zicfiss_extension::bit_16::parse_rd(self, opc)),
+            OpcodeKind::Zicfiss(opc @ (ZicfissOpcode::C_SSPUSH | ZicfissOpcode::C_SSPOPCHK)) => {
+                Ok(zicfiss_extension::bit_16::parse_rd(self, opc))
+            }
             _ => Err(DecodingError::Not16BitInst),
         }
     }
@@ -51,7 +54,9 @@ impl Decode for u16 {
     fn parse_rs1(self, opkind: &OpcodeKind) -> Result<Option<usize>, DecodingError> {
         match opkind {
             OpcodeKind::C(opc) => Ok(c_extension::bit_16::parse_rs1(self, opc)),
-            OpcodeKind::Zicfiss(opc) => Ok(zicfiss_extension::bit_16::parse_rs1(self, opc)),
+            OpcodeKind::Zicfiss(opc @ (ZicfissOpcode::C_SSPUSH | ZicfissOpcode::C_SSPOPCHK)) => {
+                Ok(zicfiss_extension::bit_16::parse_rs1(self, opc))
+            }
             _ => Err(DecodingError::Not16BitInst),
         }
     }
@@ -59,7 +64,9 @@ impl Decode for u16 {
     fn parse_rs2(self, opkind: &OpcodeKind) -> Result<Option<usize>, DecodingError> {
         match opkind {
             OpcodeKind::C(opc) => Ok(c_extension::bit_16::parse_rs2(self, opc)),
-            OpcodeKind::Zicfiss(opc) => Ok(zicfiss_extension::bit_16::parse_rs2(self, opc)),
+            OpcodeKind::Zicfiss(opc @ (ZicfissOpcode::C_SSPUSH | ZicfissOpcode::C_SSPOPCHK)) => {
+                Ok(zicfiss_extension::bit_16::parse_rs2(self, opc))
+            }
             _ => Err(DecodingError::Not16BitInst),
         }
     }
@@ -67,7 +74,9 @@ impl Decode for u16 {
     fn parse_imm(self, opkind: &OpcodeKind, _isa: Isa) -> Result<Option<i32>, DecodingError> {
         match opkind {
             OpcodeKind::C(opc) => Ok(c_extension::bit_16::parse_imm(self, opc)),
-            OpcodeKind::Zicfiss(opc) => Ok(zicfiss_extension::bit_16::parse_imm(self, opc)),
+            OpcodeKind::Zicfiss(opc @ (ZicfissOpcode::C_SSPUSH | ZicfissOpcode::C_SSPOPCHK)) => {
+                Ok(zicfiss_extension::bit_16::parse_imm(self, opc))
+            }
             _ => Err(DecodingError::Not16BitInst),
         }
     }
diff --git a/src/decode/inst_32.rs b/src/decode/inst_32.rs
index d36c4e8..6ba2aa7 100644
--- a/src/decode/inst_32.rs
+++ b/src/decode/inst_32.rs
@@ -3,6 +3,7 @@ use super::{
     zicntr_extension, zicsr_extension, zifencei_extension,
 };
 use super::{Decode, DecodeUtil, DecodingError};
+use crate::instruction::zicfiss_extension::ZicfissOpcode;
 use crate::instruction::zicntr_extension::ZicntrOpcode;
 use crate::instruction::{InstFormat, Instruction, OpcodeKind};
 use crate::{Extensions, Isa};
@@ -74,6 +75,9 @@ impl Decode for u32 {
             OpcodeKind::A(opc) => Ok(a_extension::bit_32::parse_rd(self, opc)),
             OpcodeKind::Zifencei(opc) => Ok(zifencei_extension::bit_32::parse_rd(self, opc)),
             OpcodeKind::Zicsr(opc) => Ok(zicsr_extension::bit_32::parse_rd(self, opc)),
+            OpcodeKind::Zicfiss(ZicfissOpcode::C_SSPUSH | ZicfissOpcode::C_SSPOPCHK) => {
+                Err(DecodingError::Not32BitInst)
+            }
             OpcodeKind::Zicfiss(opc) => Ok(zicfiss_extension::bit_32::parse_rd(self, opc)),
             OpcodeKind::Zicntr(opc) => Ok(zicntr_extension::bit_32::parse_rd(self, opc)),
             OpcodeKind::Zicboz(opc) => Ok(zicboz_extension::bit_32::parse_rd(self, opc)),
@@ -89,6 +93,9 @@ impl Decode for u32 {
             OpcodeKind::A(opc) => Ok(a_extension::bit_32::parse_rs1(self, opc)),
             OpcodeKind::Zifencei(opc) => Ok(zifencei_extension::bit_32::parse_rs1(self, opc)),
             OpcodeKind::Zicsr(opc) => Ok(zicsr_extension::bit_32::parse_rs1(self, opc)),
+            OpcodeKind::Zicfiss(ZicfissOpcode::C_SSPUSH | ZicfissOpcode::C_SSPOPCHK) => {
+                Err(DecodingError::Not32BitInst)
+            }
             OpcodeKind::Zicfiss(opc) => Ok(zicfiss_extension::bit_32::parse_rs1(self, opc)),
             OpcodeKind::Zicntr(opc) => Ok(zicntr_extension::bit_32::parse_rs1(self, opc)),
             OpcodeKind::Zicboz(opc) => Ok(zicboz_extension::bit_32::parse_rs1(self, opc)),
@@ -104,6 +111,9 @@ impl Decode for u32 {
             OpcodeKind::A(opc) => Ok(a_extension::bit_32::parse_rs2(self, opc)),
             OpcodeKind::Zifencei(opc) => Ok(zifencei_extension::bit_32::parse_rs2(self, opc)),
             OpcodeKind::Zicsr(opc) => Ok(zicsr_extension::bit_32::parse_rs2(self, opc)),
+            OpcodeKind::Zicfiss(ZicfissOpcode::C_SSPUSH | ZicfissOpcode::C_SSPOPCHK) => {
+                Err(DecodingError::Not32BitInst)
+            }
             OpcodeKind::Zicfiss(opc) => Ok(zicfiss_extension::bit_32::parse_rs2(self, opc)),
             OpcodeKind::Zicntr(opc) => Ok(zicntr_extension::bit_32::parse_rs2(self, opc)),
             OpcodeKind::Zicboz(opc) => Ok(zicboz_extension::bit_32::parse_rs2(self, opc)),
@@ -119,6 +129,9 @@ impl Decode for u32 {
             OpcodeKind::A(opc) => Ok(a_extension::bit_32::parse_imm(self, opc)),
             OpcodeKind::Zifencei(opc) => Ok(zifencei_extension::bit_32::parse_imm(self, opc)),
             OpcodeKind::Zicsr(opc) => Ok(zicsr_extension::bit_32::parse_imm(self, opc)),
+            OpcodeKind::Zicfiss(ZicfissOpcode::C_SSPUSH | ZicfissOpcode::C_SSPOPCHK) => {
+                Err(DecodingError::Not32BitInst)
+            }
             OpcodeKind::Zicfiss(opc) => Ok(zicfiss_extension::bit_32::parse_imm(self, opc)),
             OpcodeKind::Zicntr(opc) => Ok(zicntr_extension::bit_32::parse_imm(self, opc)),
             OpcodeKind::Zicboz(opc) => Ok(zicboz_extension::bit_32::parse_imm(self, opc)),
-- 
2.43.0


From 312175c7c1bd01269c942a32260720c69e112636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:04:01 +0000
Subject: [PATCH 13/23] fix: return an error instead of panicking when usize is
 out of range

---
 src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 931c6c4..72beafd 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -77,11 +77,11 @@ impl TryFrom<usize> for Instruction {
     fn try_from(inst: usize) -> Result<Self, Self::Error> {
         if inst & 0b11 == 0b11 {
             u32::try_from(inst)
-                .expect("Truncation of usize to u32 failed.")
+                .map_err(|_| DecodingError::Not32BitInst)?
                 .decode(Isa::Rv64)
         } else {
             u16::try_from(inst)
-                .expect("Truncation of usize to u16 failed.")
+                .map_err(|_| DecodingError::Not16BitInst)?
                 .decode(Isa::Rv64)
         }
     }
-- 
2.43.0


From 712d3ac63d2bba4b87db41854cb05a909ed5483f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:04:02 +0000
Subject: [PATCH 14/23] fix: print sfence.vma instead of panicking

---
 src/instruction.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/instruction.rs b/src/instruction.rs
index e96591b..784332d 100644
--- a/src/instruction.rs
+++ b/src/instruction.rs
@@ -47,16 +47,23 @@ impl Display for Instruction {
     #[allow(clippy::too_many_lines)]
     fn fmt(&self, f: &mut Formatter) -> fmt::Result {
         match self.inst_format {
-            InstFormat::RFormat | InstFormat::MFormat => {
-                write!(
+            InstFormat::RFormat | InstFormat::MFormat => match self.opc {
+                OpcodeKind::Priv(PrivOpcode::SFENCE_VMA) => write!(
+                    f,
+                    "{} {}, {}",
+                    self.opc,
+                    reg2str(self.rs1.unwrap()),
+                    reg2str(self.rs2.unwrap())
+                ),
+                _ => write!(
                     f,
                     "{} {}, {}, {}",
                     self.opc,
                     reg2str(self.rd.unwrap()),
                     reg2str(self.rs1.unwrap()),
                     reg2str(self.rs2.unwrap())
-                )
-            }
+                ),
+            },
             InstFormat::AFormat => match self.opc {
                 OpcodeKind::A(AOpcode::LR_W | AOpcode::LR_D) => write!(
                     f,
-- 
2.43.0


From 68dc600a39e718f238515c25ed7b25f7dc4861cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:04:03 +0000
Subject: [PATCH 15/23] fix: print the register operand of sspush and sspopchk

---
 src/instruction.rs                   | 4 ++--
 src/instruction/zicfiss_extension.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/instruction.rs b/src/instruction.rs
index 784332d..122c3d1 100644
--- a/src/instruction.rs
+++ b/src/instruction.rs
@@ -424,13 +424,13 @@ pub enum InstFormat {
 
     /// Only rs1 name
     /// ```ignore
-    /// sspush ra
+    /// sspopchk t0
     /// ```
     OnlyRs1,
 
     /// Only rs2 name
     /// ```ignore
-    /// sspopchk t0
+    /// sspush ra
     /// ```
     OnlyRs2,
 }
diff --git a/src/instruction/zicfiss_extension.rs b/src/instruction/zicfiss_extension.rs
index b3ccb51..c3ce341 100644
--- a/src/instruction/zicfiss_extension.rs
+++ b/src/instruction/zicfiss_extension.rs
@@ -40,8 +40,8 @@ impl Display for ZicfissOpcode {
 impl Opcode for ZicfissOpcode {
     fn get_format(&self) -> InstFormat {
         match self {
-            ZicfissOpcode::SSPUSH => InstFormat::OnlyRs1,
-            ZicfissOpcode::SSPOPCHK => InstFormat::OnlyRs2,
+            ZicfissOpcode::SSPUSH => InstFormat::OnlyRs2,
+            ZicfissOpcode::SSPOPCHK => InstFormat::OnlyRs1,
             ZicfissOpcode::SSRDP => InstFormat::OnlyRd,
             ZicfissOpcode::SSAMOSWAP_W | ZicfissOpcode::SSAMOSWAP_D => InstFormat::AFormat,
             ZicfissOpcode::C_SSPUSH | ZicfissOpcode::C_SSPOPCHK => InstFormat::NoOperand,
-- 
2.43.0


From 4d75c79edbda0e2c3ff28e6dc1ce06fcc2baad83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:04:03 +0000
Subject: [PATCH 16/23] fix: print c.sspush and c.sspopchk instead of panicking

---
 src/instruction.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/instruction.rs b/src/instruction.rs
index 122c3d1..765978a 100644
--- a/src/instruction.rs
+++ b/src/instruction.rs
@@ -222,6 +222,7 @@ impl Display for Instruction {
                 OpcodeKind::BaseI(BaseIOpcode::ECALL | BaseIOpcode::EBREAK)
                 | OpcodeKind::Zifencei(ZifenceiOpcode::FENCE)
                 | OpcodeKind::C(COpcode::NOP | COpcode::EBREAK)
+                | OpcodeKind::Zicfiss(ZicfissOpcode::C_SSPUSH | ZicfissOpcode::C_SSPOPCHK)
                 | OpcodeKind::Priv(
                     PrivOpcode::MRET | PrivOpcode::SRET | PrivOpcode::WFI | PrivOpcode::SFENCE_VMA,
                 ) => write!(f, "{}", self.opc),
-- 
2.43.0


From 7eeb2843cfde7577d73c2dd2b37113592157e218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:04:04 +0000
Subject: [PATCH 17/23] fix: remove the comma from the mulhsu mnemonic

---
 src/instruction/m_extension.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/instruction/m_extension.rs b/src/instruction/m_extension.rs
index 97d6eb3..8589422 100644
--- a/src/instruction/m_extension.rs
+++ b/src/instruction/m_extension.rs
@@ -29,7 +29,7 @@ impl Display for MOpcode {
         match self {
             MOpcode::MUL => write!(f, "mul"),
             MOpcode::MULH => write!(f, "mulh"),
-            MOpcode::MULHSU => write!(f, "mulhsu,"),
+            MOpcode::MULHSU => write!(f, "mulhsu"),
             MOpcode::MULHU => write!(f, "mulhu"),
             MOpcode::DIV => write!(f, "div"),
             MOpcode::DIVU => write!(f, "divu"),
-- 
2.43.0


From 94a2e52b5bb9d0fef3db0a7fe36f324e7692e07d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:04:05 +0000
Subject: [PATCH 18/23] fix: print store and branch operands in assembly order

---
 src/instruction.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/instruction.rs b/src/instruction.rs
index 765978a..1f8986a 100644
--- a/src/instruction.rs
+++ b/src/instruction.rs
@@ -98,13 +98,21 @@ impl Display for Instruction {
                 reg2str(self.rs1.unwrap()),
                 self.imm.unwrap()
             ),
-            InstFormat::CsFormat | InstFormat::SFormat | InstFormat::BFormat => write!(
+            InstFormat::CsFormat | InstFormat::SFormat => write!(
                 f,
                 "{} {}, {}({})",
                 self.opc,
-                reg2str(self.rs1.unwrap()),
+                reg2str(self.rs2.unwrap()),
                 self.imm.unwrap(),
+                reg2str(self.rs1.unwrap()),
+            ),
+            InstFormat::BFormat => write!(
+                f,
+                "{} {}, {}, {}",
+                self.opc,
+                reg2str(self.rs1.unwrap()),
                 reg2str(self.rs2.unwrap()),
+                self.imm.unwrap(),
             ),
             InstFormat::CiwFormat => {
                 write!(
-- 
2.43.0


From f02e21ffe211a0c8ec76e6b98b3e909880ecb13d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:04:05 +0000
Subject: [PATCH 19/23] fix: print the shift amount of immediate shifts

---
 src/instruction.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/instruction.rs b/src/instruction.rs
index 1f8986a..0a52762 100644
--- a/src/instruction.rs
+++ b/src/instruction.rs
@@ -84,10 +84,11 @@ impl Display for Instruction {
             InstFormat::RShamtFormat => {
                 write!(
                     f,
-                    "{} {}, {}",
+                    "{} {}, {}, {}",
                     self.opc,
                     reg2str(self.rd.unwrap()),
                     reg2str(self.rs1.unwrap()),
+                    self.imm.unwrap()
                 )
             }
             InstFormat::ClFormat | InstFormat::ALrFormat | InstFormat::IFormat => write!(
@@ -291,7 +292,7 @@ pub enum InstFormat {
 
     /// Regular format with shamt
     /// ```ignore
-    /// srai rd, rs1
+    /// srai rd, rs1, shamt
     /// ```
     RShamtFormat,
 
-- 
2.43.0


From 732efc4589b0f8894deb0da9d0e022aa2a45fba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:04:06 +0000
Subject: [PATCH 20/23] fix: print register names for compressed branch format

---
 src/instruction.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/instruction.rs b/src/instruction.rs
index 0a52762..ba9fe23 100644
--- a/src/instruction.rs
+++ b/src/instruction.rs
@@ -194,7 +194,7 @@ impl Display for Instruction {
                     f,
                     "{} {}, {}",
                     self.opc,
-                    self.rs1.unwrap(),
+                    reg2str(self.rs1.unwrap()),
                     self.imm.unwrap(),
                 )
             }
-- 
2.43.0


From bfae554d668a847b29ab9d7b9609cf318ab6aa8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:04:06 +0000
Subject: [PATCH 21/23] fix: print the c.addi4spn immediate with a 0x prefix

---
 src/instruction.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/instruction.rs b/src/instruction.rs
index ba9fe23..40856fd 100644
--- a/src/instruction.rs
+++ b/src/instruction.rs
@@ -118,7 +118,7 @@ impl Display for Instruction {
             InstFormat::CiwFormat => {
                 write!(
                     f,
-                    "{} {}, sp, {:x}",
+                    "{} {}, sp, {:#x}",
                     self.opc,
                     reg2str(self.rd.unwrap()),
                     self.imm.unwrap()
-- 
2.43.0


From 7024a71f94e7ba22a062e6c89d478ccb260b51a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:04:07 +0000
Subject: [PATCH 22/23] fix: print fence words as fence, not fence.i

---
 src/instruction/zifencei_extension.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/instruction/zifencei_extension.rs b/src/instruction/zifencei_extension.rs
index cba0e63..47f2e60 100644
--- a/src/instruction/zifencei_extension.rs
+++ b/src/instruction/zifencei_extension.rs
@@ -13,7 +13,7 @@ pub enum ZifenceiOpcode {
 impl Display for ZifenceiOpcode {
     fn fmt(&self, f: &mut Formatter) -> fmt::Result {
         match self {
-            ZifenceiOpcode::FENCE => write!(f, "fence.i"),
+            ZifenceiOpcode::FENCE => write!(f, "fence"),
         }
     }
 }
-- 
2.43.0


From 02acf19c428a856600e5f6b8d1f61bc933db4f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:06:46 +0000
Subject: [PATCH 23/23] fix: decode c.add hints with rd = x0 as c.add instead
 of c.ebreak

---
 src/decode/c_extension.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decode/c_extension.rs b/src/decode/c_extension.rs
index f4bef1e..2a1946c 100644
--- a/src/decode/c_extension.rs
+++ b/src/decode/c_extension.rs
@@ -99,7 +99,7 @@ pub mod bit_16 {
                     _ => Ok(COpcode::MV),
                 },
                 0b1 => match mi_flag {
-                    0b0 => Ok(COpcode::EBREAK),
+                    0b0 if lo_flag == 0 => Ok(COpcode::EBREAK),
                     _ => match lo_flag {
                         0b0 => Ok(COpcode::JALR),
                         _ => Ok(COpcode::ADD),
-- 
2.43.0

