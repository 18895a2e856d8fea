-------------------------------- MODULE Isa --------------------------------
(***************************************************************************)
(* The instruction listing: one row per instruction, transcribed from the  *)
(* listings of the RISC-V manual (Volume I ch. 34 "RV32/64G Instruction    *)
(* Set Listings", the C, Zicsr, Zicntr, Zicfiss and Zicboz chapters,       *)
(* Volume II for mret/sret/wfi/sfence.vma).  It says what a word MEANS; it *)
(* knows nothing about how a decoder finds it.  Decoder.tla is the         *)
(* operational counterpart; MCDecoder checks that the two agree.           *)
(*                                                                         *)
(* An encoding is written bit by bit, most significant first:              *)
(*   0 1   fixed bits                                                      *)
(*   d s t rd, rs1, rs2          D S T  the same, 3-bit form (x8..x15)     *)
(*   b B   a field that is both rd and rs1 (two-address forms)             *)
(*   c     CSR number            i      immediate bits                     *)
(*   -     ignored by the decoder                                          *)
(* ord lists, for the i bits from left to right, the bit of the immediate  *)
(* each one holds - exactly the imm[...] annotations of the manual.        *)
(* sg is the width to sign-extend from (0: unsigned).                      *)
(* nz: fields that must not be zero.  ne: encodings carved out of this one *)
(* because they belong to another row (or to none).                        *)
(***************************************************************************)
EXTENDS Bits, FiniteSets, Bitwise

Chars(str) == SelectSeq([k \in 1..Len(str) |-> SubSeq(str, k, k)], LAMBDA ch : ch # " ")

\* Positions (bit numbers) of the letters of set L in pattern p.
At(p, L) == {b \in 0..(Len(p) - 1) : p[Len(p) - b] \in L}
PatMask(p) == WordOf(At(p, {"0", "1"}))
PatVal(p) == WordOf(At(p, {"1"}))
Pat(str) == LET p == Chars(str) IN [m |-> PatMask(p), v |-> PatVal(p)]

\* Does w agree with pattern record q on all fixed bits?
Agrees(w, q) == (w[1] & q.m[1]) = q.v[1] /\ (w[2] & q.m[2]) = q.v[2]

Max(S) == CHOOSE x \in S : \A y \in S : x >= y
Min(S) == CHOOSE x \in S : \A y \in S : x <= y

\* Where a register operand comes from: a field [e..s] plus an offset, or a constant.
NoReg == [k |-> "none", e |-> 0, s |-> 0, add |-> 0]
\* A register implied by the encoding.  e..s is the field that would hold it in the
\* surrounding format; in every word of the row that field holds the constant or is unrelated.
ConstReg(n, e, s) == [k |-> "const", e |-> e, s |-> s, add |-> n]
FieldReg(p, l) == LET S == At(p, {l}) IN
    [k |-> "field", e |-> Max(S), s |-> Min(S), add |-> IF l \in {"D", "S", "T", "B"} THEN 8 ELSE 0]
\* A digit stands for an implied register; e..s: where the format would keep it.
RegOf(p, l, e, s) ==
    CASE l = "" -> NoReg
      [] l = "0" -> ConstReg(0, e, s)
      [] l = "1" -> ConstReg(1, e, s)
      [] l = "2" -> ConstReg(2, e, s)
      [] l = "5" -> ConstReg(5, e, s)
      [] OTHER -> FieldReg(p, l)

\* The immediate bits from left to right, paired with their targets.
RECURSIVE Downto(_, _)
Downto(e, s) == IF e < s THEN << >> ELSE << e >> \o Downto(e - 1, s)
ImmPairs(p, ord) ==
    LET src == SelectSeq(Downto(Len(p) - 1, 0), LAMBDA b : p[Len(p) - b] = "i")
    IN [k \in 1..Len(ord) |-> << src[k], ord[k] >>]

NoImm == [has |-> FALSE, ord |-> << >>, sg |-> 0]
Imm(ord, sg) == [has |-> TRUE, ord |-> ord, sg |-> sg]

Row(id, mn, isas, enc, rd, rs1, rs2, imm, fmt, nz, ne) ==
    LET p == Chars(enc) IN
    [ id |-> id, mn |-> mn, isas |-> isas, width |-> Len(p), fmt |-> fmt,
      q |-> [m |-> PatMask(p), v |-> PatVal(p)],
      rd |-> RegOf(p, rd, 11, 7),
      rs1 |-> IF Len(p) = 32 THEN RegOf(p, rs1, 19, 15) ELSE RegOf(p, rs1, 11, 7),
      rs2 |-> IF Len(p) = 32 THEN RegOf(p, rs2, 24, 20) ELSE RegOf(p, rs2, 6, 2),
      himm |-> imm.has, pairs |-> ImmPairs(p, imm.ord), sg |-> imm.sg,
      nimm |-> Cardinality(At(p, {"i"})),
      ignored |-> At(p, {"-"}),
      nz |-> [k \in 1..Len(nz) |-> At(p, {nz[k]})],
      ne |-> [k \in 1..Len(ne) |-> Pat(ne[k])] ]

Both == {32, 64}

\* ---- 32-bit families ------------------------------------------------------
RType(id, mn, isas, f7, f3, opc, fmt) ==
    Row(id, mn, isas, f7 \o "ttttt sssss" \o f3 \o "ddddd" \o opc, "d", "s", "t", NoImm, fmt, << >>, << >>)
IType(id, mn, isas, f3, opc) ==
    Row(id, mn, isas, "iiiiiiiiiiii sssss" \o f3 \o "ddddd" \o opc, "d", "s", "",
        Imm(Downto(11, 0), 12), "IFormat", << >>, << >>)
SType(id, mn, isas, f3) ==
    Row(id, mn, isas, "iiiiiii ttttt sssss" \o f3 \o "iiiii 0100011", "", "s", "t",
        Imm(Downto(11, 5) \o Downto(4, 0), 12), "SFormat", << >>, << >>)
BType(id, mn, f3) ==
    Row(id, mn, Both, "iiiiiii ttttt sssss" \o f3 \o "iiiii 1100011", "", "s", "t",
        Imm(<< 12 >> \o Downto(10, 5) \o Downto(4, 1) \o << 11 >>, 13), "BFormat", << >>, << >>)
UType(id, mn, opc) ==
    Row(id, mn, Both, "iiiiiiiiiiiiiiiiiiii ddddd" \o opc, "d", "", "",
        Imm(Downto(19, 0), 0), "UFormat", << >>, << >>)
\* 6-bit shift amounts on Rv64, 5-bit on Rv32: one row per ISA.
Shift5(id, mn, isas, f7, f3, opc) ==
    Row(id, mn, isas, f7 \o "iiiii sssss" \o f3 \o "ddddd" \o opc, "d", "s", "",
        Imm(Downto(4, 0), 0), "RShamtFormat", << >>, << >>)
Shift6(id, mn, f6, f3, opc) ==
    Row(id, mn, {64}, f6 \o "iiiiii sssss" \o f3 \o "ddddd" \o opc, "d", "s", "",
        Imm(Downto(5, 0), 0), "RShamtFormat", << >>, << >>)
AmoRow(id, mn, isas, f5, f3) ==
    Row(id, mn, isas, f5 \o "ii ttttt sssss" \o f3 \o "ddddd 0101111", "d", "s", "t",
        Imm(<< 1, 0 >>, 0), "AFormat", << >>, << >>)
Csr(id, mn, f3, ne) ==
    Row(id, mn, Both, "cccccccccccc sssss" \o f3 \o "ddddd 1110011", "d", "s", "c",
        NoImm, "CsrFormat", << >>, ne)
CsrI(id, mn, f3) ==
    Row(id, mn, Both, "cccccccccccc iiiii" \o f3 \o "ddddd 1110011", "d", "", "c",
        Imm(Downto(4, 0), 0), "CsrUiFormat", << >>, << >>)
Fixed(id, mn, enc) ==
    Row(id, mn, Both, enc, "", "", "", NoImm, "NoOperand", << >>, << >>)

Cnt(id, mn, isas, csr) ==
    Row(id, mn, isas, csr \o "00000 010 ddddd 1110011", "d", "", "", NoImm, "OnlyRd", << >>, << >>)
CntEnc(csr) == csr \o "00000 010 ----- 1110011"
Cycle == "110000000000"   Time == "110000000001"   Instret == "110000000010"
CycleH == "110010000000"  TimeH == "110010000001"  InstretH == "110010000010"

Rows32 == <<
  UType("BaseI.LUI", "lui", "0110111"),
  UType("BaseI.AUIPC", "auipc", "0010111"),
  Row("BaseI.JAL", "jal", Both, "iiiiiiiiiiiiiiiiiiii ddddd 1101111", "d", "", "",
      Imm(<< 20 >> \o Downto(10, 1) \o << 11 >> \o Downto(19, 12), 21), "JFormat", << >>, << >>),
  IType("BaseI.JALR", "jalr", Both, "000", "1100111"),
  BType("BaseI.BEQ", "beq", "000"), BType("BaseI.BNE", "bne", "001"),
  BType("BaseI.BLT", "blt", "100"), BType("BaseI.BGE", "bge", "101"),
  BType("BaseI.BLTU", "bltu", "110"), BType("BaseI.BGEU", "bgeu", "111"),
  IType("BaseI.LB", "lb", Both, "000", "0000011"), IType("BaseI.LH", "lh", Both, "001", "0000011"),
  IType("BaseI.LW", "lw", Both, "010", "0000011"), IType("BaseI.LD", "ld", {64}, "011", "0000011"),
  IType("BaseI.LBU", "lbu", Both, "100", "0000011"), IType("BaseI.LHU", "lhu", Both, "101", "0000011"),
  IType("BaseI.LWU", "lwu", {64}, "110", "0000011"),
  SType("BaseI.SB", "sb", Both, "000"), SType("BaseI.SH", "sh", Both, "001"),
  SType("BaseI.SW", "sw", Both, "010"), SType("BaseI.SD", "sd", {64}, "011"),
  IType("BaseI.ADDI", "addi", Both, "000", "0010011"), IType("BaseI.SLTI", "slti", Both, "010", "0010011"),
  IType("BaseI.SLTIU", "sltiu", Both, "011", "0010011"), IType("BaseI.XORI", "xori", Both, "100", "0010011"),
  IType("BaseI.ORI", "ori", Both, "110", "0010011"), IType("BaseI.ANDI", "andi", Both, "111", "0010011"),
  Shift5("BaseI.SLLI", "slli", {32}, "0000000", "001", "0010011"),
  Shift5("BaseI.SRLI", "srli", {32}, "0000000", "101", "0010011"),
  Shift5("BaseI.SRAI", "srai", {32}, "0100000", "101", "0010011"),
  Shift6("BaseI.SLLI", "slli", "000000", "001", "0010011"),
  Shift6("BaseI.SRLI", "srli", "000000", "101", "0010011"),
  Shift6("BaseI.SRAI", "srai", "010000", "101", "0010011"),
  RType("BaseI.ADD", "add", Both, "0000000", "000", "0110011", "RFormat"),
  RType("BaseI.SUB", "sub", Both, "0100000", "000", "0110011", "RFormat"),
  RType("BaseI.SLL", "sll", Both, "0000000", "001", "0110011", "RFormat"),
  RType("BaseI.SLT", "slt", Both, "0000000", "010", "0110011", "RFormat"),
  RType("BaseI.SLTU", "sltu", Both, "0000000", "011", "0110011", "RFormat"),
  RType("BaseI.XOR", "xor", Both, "0000000", "100", "0110011", "RFormat"),
  RType("BaseI.SRL", "srl", Both, "0000000", "101", "0110011", "RFormat"),
  RType("BaseI.SRA", "sra", Both, "0100000", "101", "0110011", "RFormat"),
  RType("BaseI.OR", "or", Both, "0000000", "110", "0110011", "RFormat"),
  RType("BaseI.AND", "and", Both, "0000000", "111", "0110011", "RFormat"),
  IType("BaseI.ADDIW", "addiw", {64}, "000", "0011011"),
  Shift5("BaseI.SLLIW", "slliw", {64}, "0000000", "001", "0011011"),
  Shift5("BaseI.SRLIW", "srliw", {64}, "0000000", "101", "0011011"),
  Shift5("BaseI.SRAIW", "sraiw", {64}, "0100000", "101", "0011011"),
  RType("BaseI.ADDW", "addw", {64}, "0000000", "000", "0111011", "RFormat"),
  RType("BaseI.SUBW", "subw", {64}, "0100000", "000", "0111011", "RFormat"),
  RType("BaseI.SLLW", "sllw", {64}, "0000000", "001", "0111011", "RFormat"),
  RType("BaseI.SRLW", "srlw", {64}, "0000000", "101", "0111011", "RFormat"),
  RType("BaseI.SRAW", "sraw", {64}, "0100000", "101", "0111011", "RFormat"),
  Fixed("BaseI.ECALL", "ecall", "000000000000 00000 000 00000 1110011"),
  Fixed("BaseI.EBREAK", "ebreak", "000000000001 00000 000 00000 1110011"),

  \* rd, rs1 and the fm/pred/succ bits of fence are "reserved, ignored": any value is a fence.
  Row("Zifencei.FENCE", "fence", Both, "iiiiiiiiiiii sssss 000 ddddd 0001111", "d", "s", "",
      Imm(Downto(11, 0), 0), "NoOperand", << >>, << >>),
  Row("Zifencei.FENCE_I", "fence.i", Both, "------------ ----- 001 ----- 0001111", "", "", "",
      NoImm, "NoOperand", << >>, << >>),

  RType("M.MUL", "mul", Both, "0000001", "000", "0110011", "MFormat"),
  RType("M.MULH", "mulh", Both, "0000001", "001", "0110011", "MFormat"),
  RType("M.MULHSU", "mulhsu", Both, "0000001", "010", "0110011", "MFormat"),
  RType("M.MULHU", "mulhu", Both, "0000001", "011", "0110011", "MFormat"),
  RType("M.DIV", "div", Both, "0000001", "100", "0110011", "MFormat"),
  RType("M.DIVU", "divu", Both, "0000001", "101", "0110011", "MFormat"),
  RType("M.REM", "rem", Both, "0000001", "110", "0110011", "MFormat"),
  RType("M.REMU", "remu", Both, "0000001", "111", "0110011", "MFormat"),
  RType("M.MULW", "mulw", {64}, "0000001", "000", "0111011", "MFormat"),
  RType("M.DIVW", "divw", {64}, "0000001", "100", "0111011", "MFormat"),
  RType("M.DIVUW", "divuw", {64}, "0000001", "101", "0111011", "MFormat"),
  RType("M.REMW", "remw", {64}, "0000001", "110", "0111011", "MFormat"),
  RType("M.REMUW", "remuw", {64}, "0000001", "111", "0111011", "MFormat"),

  Row("A.LR_W", "lr.w", Both, "00010 ii 00000 sssss 010 ddddd 0101111", "d", "s", "",
      Imm(<< 1, 0 >>, 0), "ALrFormat", << >>, << >>),
  Row("A.LR_D", "lr.d", {64}, "00010 ii 00000 sssss 011 ddddd 0101111", "d", "s", "",
      Imm(<< 1, 0 >>, 0), "AFormat", << >>, << >>),
  AmoRow("A.SC_W", "sc.w", Both, "00011", "010"), AmoRow("A.SC_D", "sc.d", {64}, "00011", "011"),
  AmoRow("A.AMOSWAP_W", "amoswap.w", Both, "00001", "010"), AmoRow("A.AMOSWAP_D", "amoswap.d", {64}, "00001", "011"),
  AmoRow("A.AMOADD_W", "amoadd.w", Both, "00000", "010"), AmoRow("A.AMOADD_D", "amoadd.d", {64}, "00000", "011"),
  AmoRow("A.AMOXOR_W", "amoxor.w", Both, "00100", "010"), AmoRow("A.AMOXOR_D", "amoxor.d", {64}, "00100", "011"),
  AmoRow("A.AMOAND_W", "amoand.w", Both, "01100", "010"), AmoRow("A.AMOAND_D", "amoand.d", {64}, "01100", "011"),
  AmoRow("A.AMOOR_W", "amoor.w", Both, "01000", "010"), AmoRow("A.AMOOR_D", "amoor.d", {64}, "01000", "011"),
  AmoRow("A.AMOMIN_W", "amomin.w", Both, "10000", "010"), AmoRow("A.AMOMIN_D", "amomin.d", {64}, "10000", "011"),
  AmoRow("A.AMOMAX_W", "amomax.w", Both, "10100", "010"), AmoRow("A.AMOMAX_D", "amomax.d", {64}, "10100", "011"),
  AmoRow("A.AMOMINU_W", "amominu.w", Both, "11000", "010"), AmoRow("A.AMOMINU_D", "amominu.d", {64}, "11000", "011"),
  AmoRow("A.AMOMAXU_W", "amomaxu.w", Both, "11100", "010"), AmoRow("A.AMOMAXU_D", "amomaxu.d", {64}, "11100", "011"),

  Csr("Zicsr.CSRRW", "csrrw", "001", << >>),
  \* The counter pseudo-instructions are carved out of csrrs, per ISA.
  [Csr("Zicsr.CSRRS", "csrrs", "010",
       << CntEnc(Cycle), CntEnc(Time), CntEnc(Instret), CntEnc(CycleH), CntEnc(TimeH), CntEnc(InstretH) >>)
     EXCEPT !.isas = {32}],
  [Csr("Zicsr.CSRRS", "csrrs", "010", << CntEnc(Cycle), CntEnc(Time), CntEnc(Instret) >>)
     EXCEPT !.isas = {64}],
  Csr("Zicsr.CSRRC", "csrrc", "011", << >>),
  CsrI("Zicsr.CSRRWI", "csrrwi", "101"), CsrI("Zicsr.CSRRSI", "csrrsi", "110"), CsrI("Zicsr.CSRRCI", "csrrci", "111"),

  Cnt("Zicntr.RDCYCLE", "rdcycle", Both, Cycle), Cnt("Zicntr.RDTIME", "rdtime", Both, Time),
  Cnt("Zicntr.RDINSTRET", "rdinstret", Both, Instret),
  Cnt("Zicntr.RDCYCLE_H", "rdcycleh", {32}, CycleH), Cnt("Zicntr.RDTIME_H", "rdtimeh", {32}, TimeH),
  Cnt("Zicntr.RDINSTRET_H", "rdinstreth", {32}, InstretH),

  \* sspush x1 / x5 and sspopchk x1 / x5: the two legal link registers only.
  [Row("Zicfiss.SSPUSH", "sspush", Both, "1100111 00t01 00000 100 00000 1110011", "0", "0", "t",
      NoImm, "OnlyRs2", << >>, << >>) EXCEPT !.rs2 = [k |-> "field", e |-> 24, s |-> 20, add |-> 0]],
  [Row("Zicfiss.SSPOPCHK", "sspopchk", Both, "1100110 11100 00s01 100 00000 1110011", "0", "s", "",
      NoImm, "OnlyRs1", << >>, << >>) EXCEPT !.rs1 = [k |-> "field", e |-> 19, s |-> 15, add |-> 0]],
  Row("Zicfiss.SSRDP", "ssrdp", Both, "1100110 11100 00000 100 ddddd 1110011", "d", "", "",
      NoImm, "OnlyRd", << "d" >>, << >>),
  Row("Zicfiss.SSAMOSWAP_W", "ssamoswap.w", Both, "01001 -- ttttt sssss 010 ddddd 0101111", "d", "s", "t",
      NoImm, "AFormat", << >>, << >>),
  Row("Zicfiss.SSAMOSWAP_D", "ssamoswap.d", {64}, "01001 -- ttttt sssss 011 ddddd 0101111", "d", "s", "t",
      NoImm, "AFormat", << >>, << >>),

  Row("Zicboz.CBO_ZERO", "cbo.zero", Both, "000000000100 sssss 010 00000 0001111", "", "s", "",
      NoImm, "OnlyRs1", << >>, << >>),

  Fixed("Priv.SRET", "sret", "0001000 00010 00000 000 00000 1110011"),
  Fixed("Priv.MRET", "mret", "0011000 00010 00000 000 00000 1110011"),
  Fixed("Priv.WFI", "wfi", "0001000 00101 00000 000 00000 1110011"),
  Row("Priv.SFENCE_VMA", "sfence.vma", Both, "0001001 ttttt sssss 000 00000 1110011", "", "s", "t",
      NoImm, "RFormat", << >>, << >>)
>>

\* ---- 16-bit (C extension) -------------------------------------------------
CSh(id, mn, isas, enc, fmt) ==
    Row(id, mn, isas, enc, IF fmt = "CbFormat" THEN "B" ELSE "b", IF fmt = "CbFormat" THEN "B" ELSE "b", "",
        Imm(IF isas = {32} THEN Downto(4, 0) ELSE Downto(5, 0), 0), fmt, << >>, << >>)
Ca(id, mn, isas, b12, f2) ==
    Row(id, mn, isas, "100" \o b12 \o "11 BBB" \o f2 \o "TTT 01", "B", "B", "T", NoImm, "CaFormat", << >>, << >>)
CjOrd == << 11, 4, 9, 8, 10, 6, 7, 3, 2, 1, 5 >>
CbOrd == << 8, 4, 3, 7, 6, 2, 1, 5 >>
S6 == Imm(Downto(5, 0), 6)

Rows16 == <<
  Row("C.ADDI4SPN", "C.addi4spn", Both, "000 iiiiiiii DDD 00", "D", "", "",
      Imm(<< 5, 4, 9, 8, 7, 6, 2, 3 >>, 0), "CiwFormat", << "i" >>, << >>),
  Row("C.LW", "C.lw", Both, "010 iii SSS ii DDD 00", "D", "S", "", Imm(<< 5, 4, 3, 2, 6 >>, 0), "ClFormat", << >>, << >>),
  Row("C.LD", "C.ld", {64}, "011 iii SSS ii DDD 00", "D", "S", "", Imm(<< 5, 4, 3, 7, 6 >>, 0), "ClFormat", << >>, << >>),
  Row("C.SW", "C.sw", Both, "110 iii SSS ii TTT 00", "", "S", "T", Imm(<< 5, 4, 3, 2, 6 >>, 0), "CsFormat", << >>, << >>),
  Row("C.SD", "C.sd", {64}, "111 iii SSS ii TTT 00", "", "S", "T", Imm(<< 5, 4, 3, 7, 6 >>, 0), "CsFormat", << >>, << >>),

  Row("C.NOP", "C.nop", Both, "000 i 00000 iiiii 01", "", "", "", S6, "NoOperand", << >>, << >>),
  Row("C.ADDI", "C.addi", Both, "000 i bbbbb iiiii 01", "b", "b", "", S6, "CiFormat", << "b" >>, << >>),
  Row("C.JAL", "C.jal", {32}, "001 iiiiiiiiiii 01", "", "", "", Imm(CjOrd, 12), "CjFormat", << >>, << >>),
  Row("C.ADDIW", "C.addiw", {64}, "001 i bbbbb iiiii 01", "b", "b", "", S6, "CiFormat", << "b" >>, << >>),
  Row("C.LI", "C.li", Both, "010 i ddddd iiiii 01", "d", "", "", S6, "CiFormat", << >>, << >>),
  Row("C.ADDI16SP", "C.addi16sp", Both, "011 i 00010 iiiii 01", "2", "2", "",
      Imm(<< 9, 4, 6, 8, 7, 5 >>, 10), "CiFormat", << "i" >>, << >>),
  Row("C.LUI", "C.lui", Both, "011 i ddddd iiiii 01", "d", "", "",
      Imm(Downto(17, 12), 18), "CiFormat", << "i" >>, << "011 - 00010 ----- 01" >>),
  CSh("C.SRLI", "C.srli", {32}, "100 0 00 BBB iiiii 01", "CbFormat"),
  CSh("C.SRLI", "C.srli", {64}, "100 i 00 BBB iiiii 01", "CbFormat"),
  CSh("C.SRAI", "C.srai", {32}, "100 0 01 BBB iiiii 01", "CbFormat"),
  CSh("C.SRAI", "C.srai", {64}, "100 i 01 BBB iiiii 01", "CbFormat"),
  Row("C.ANDI", "C.andi", Both, "100 i 10 BBB iiiii 01", "B", "B", "", S6, "CbFormat", << >>, << >>),
  Ca("C.SUB", "C.sub", Both, "0", "00"), Ca("C.XOR", "C.xor", Both, "0", "01"),
  Ca("C.OR", "C.or", Both, "0", "10"), Ca("C.AND", "C.and", Both, "0", "11"),
  Ca("C.SUBW", "C.subw", {64}, "1", "00"), Ca("C.ADDW", "C.addw", {64}, "1", "01"),
  Row("C.J", "C.j", Both, "101 iiiiiiiiiii 01", "", "", "", Imm(CjOrd, 12), "CjFormat", << >>, << >>),
  Row("C.BEQZ", "C.beqz", Both, "110 iii SSS iiiii 01", "", "S", "", Imm(CbOrd, 9), "CbFormat", << >>, << >>),
  Row("C.BNEZ", "C.bnez", Both, "111 iii SSS iiiii 01", "", "S", "", Imm(CbOrd, 9), "CbFormat", << >>, << >>),

  CSh("C.SLLI", "C.slli", {32}, "000 0 bbbbb iiiii 10", "CiFormat"),
  CSh("C.SLLI", "C.slli", {64}, "000 i bbbbb iiiii 10", "CiFormat"),
  Row("C.LWSP", "C.lwsp", Both, "010 i ddddd iiiii 10", "d", "", "",
      Imm(<< 5, 4, 3, 2, 7, 6 >>, 0), "CiFormat", << "d" >>, << >>),
  Row("C.LDSP", "C.ldsp", {64}, "011 i ddddd iiiii 10", "d", "", "",
      Imm(<< 5, 4, 3, 8, 7, 6 >>, 0), "CiFormat", << "d" >>, << >>),
  Row("C.JR", "C.jr", Both, "100 0 sssss 00000 10", "", "s", "0", NoImm, "CrFormat", << "s" >>, << >>),
  Row("C.MV", "C.mv", Both, "100 0 ddddd ttttt 10", "d", "", "t", NoImm, "CrFormat", << "t" >>, << >>),
  Row("C.EBREAK", "C.ebreak", Both, "100 1 00000 00000 10", "", "", "", NoImm, "NoOperand", << >>, << >>),
  Row("C.JALR", "C.jalr", Both, "100 1 sssss 00000 10", "", "s", "0", NoImm, "CrFormat", << "s" >>, << >>),
  Row("C.ADD", "C.add", Both, "100 1 bbbbb ttttt 10", "b", "b", "t", NoImm, "CrFormat", << "t" >>, << >>),
  Row("C.SWSP", "C.swsp", Both, "110 iiiiii ttttt 10", "", "", "t", Imm(<< 5, 4, 3, 2, 7, 6 >>, 0), "CssFormat", << >>, << >>),
  Row("C.SDSP", "C.sdsp", {64}, "111 iiiiii ttttt 10", "", "", "t", Imm(<< 5, 4, 3, 8, 7, 6 >>, 0), "CssFormat", << >>, << >>),

  \* c.sspush x1 / c.sspopchk x5 live in the zero-immediate hole of c.lui.
  Row("Zicfiss.C_SSPUSH", "c.sspush", Both, "0110 0000 1000 0001", "1", "", "", NoImm, "NoOperand", << >>, << >>),
  Row("Zicfiss.C_SSPOPCHK", "c.sspopchk", Both, "0110 0010 1000 0001", "5", "", "", NoImm, "NoOperand", << >>, << >>)
>>

RowsOf(width) == IF width = 32 THEN Rows32 ELSE Rows16
AllRows == Rows32 \o Rows16
Ops == {AllRows[k].id : k \in 1..Len(AllRows)}
\* In the listing but not in the crate's opcode enumerations (see Deviations in Decoder.tla).
AbsentOps == {"Zifencei.FENCE_I"}
CrateOps == Ops \ AbsentOps

(***************************************************************************)
(* Meaning of a word.                                                      *)
(***************************************************************************)
FieldNonZero(w, S) == \E b \in S : BitOf(w, b) = 1
MatchesRow(w, isa, r) ==
    /\ isa \in r.isas
    /\ Agrees(w, r.q)
    /\ \A k \in 1..Len(r.nz) : FieldNonZero(w, r.nz[k])
    /\ \A k \in 1..Len(r.ne) : ~Agrees(w, r.ne[k])

\* Indices of all rows that claim the word; RowsDisjoint (MCDecoder) says at most one.
Claims(w, width, isa) == LET rs == RowsOf(width) IN {k \in 1..Len(rs) : MatchesRow(w, isa, rs[k])}

RegVal(w, r) == CASE r.k = "none" -> -1
                  [] r.k = "const" -> r.add
                  [] r.k = "field" -> Slice(w, r.e, r.s) + r.add
ImmVal(w, r) == Signed(Gather(w, r.pairs), r.sg)

\* Absent operands are -1 for registers; immediates carry a presence flag.
Meaning(w, r) == [ op |-> r.id, rd |-> RegVal(w, r.rd), rs1 |-> RegVal(w, r.rs1), rs2 |-> RegVal(w, r.rs2),
                   himm |-> r.himm, imm |-> IF r.himm THEN ImmVal(w, r) ELSE 0,
                   fmt |-> r.fmt, compressed |-> (r.width = 16) ]

(***************************************************************************)
(* The row an opcode stands for.  Where an instruction is listed once per  *)
(* ISA, pick that ISA's row; an Rv64-only opcode keeps its row on Rv32     *)
(* (the operand parsers can be called with any opcode).  Compressed shifts *)
(* keep the 6-bit amount.                                                  *)
(***************************************************************************)
RowIxFor(op, isa) ==
    LET S == {k \in 1..Len(AllRows) : AllRows[k].id = op}
        T == {k \in S : isa \in AllRows[k].isas}
    IN IF T # {} THEN CHOOSE k \in T : TRUE ELSE CHOOSE k \in S : TRUE
RowTable == [isa \in {32, 64} |-> [op \in Ops |-> AllRows[RowIxFor(op, isa)]]]
WideShift == {"C.SRLI", "C.SRAI", "C.SLLI"}
ParseTable == [isa \in {32, 64} |-> [op \in Ops |->
    IF op \in WideShift THEN AllRows[RowIxFor(op, 64)] ELSE AllRows[RowIxFor(op, isa)]]]

(***************************************************************************)
(* Rebuilding the word from opcode and operands: the inverse of Meaning.   *)
(***************************************************************************)
RegBits(r, v) == IF r.k # "field" THEN {}
                 ELSE {r.s + b : b \in {x \in 0..(r.e - r.s) : ((v - r.add) \div 2^x) % 2 = 1}}
ImmBits(r, v) == {r.pairs[k][1] : k \in {x \in 1..Len(r.pairs) : (v \div 2^(r.pairs[x][2])) % 2 = 1}}
Encode(r, i) == WordOf(BitsOf(r.q.v) \cup RegBits(r.rd, i.rd) \cup RegBits(r.rs1, i.rs1)
                         \cup RegBits(r.rs2, i.rs2) \cup (IF r.himm THEN ImmBits(r, i.imm) ELSE {}))
Clear(w, S) == LET m == WordOf(S) IN << w[1] & (65535 - m[1]), w[2] & (65535 - m[2]) >>
===========================================================================
