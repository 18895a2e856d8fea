------------------------------ MODULE Decoder ------------------------------
(***************************************************************************)
(* The decoder as the crate organises it: choose the extension, choose the *)
(* opcode inside it, then extract rd, rs1, rs2 and the immediate, attach   *)
(* the format.  The choice of extension and opcode is a decision tree held *)
(* as DATA, so that the very tree TLC checks against the listing (Isa.tla) *)
(* can be exported and compared with the crate on every word.              *)
(*                                                                         *)
(* Tree nodes:                                                             *)
(*   sw   switch on the bit slice e..s                                     *)
(*   isa  switch on the target ISA                                         *)
(*   op   an opcode           ext  an extension       err  a refusal       *)
(*   dev  a recorded deviation of the crate from the listing (known        *)
(*        finding): ideal is what the listing says, actual what it does    *)
(***************************************************************************)
EXTENDS Isa

Op(id) == [k |-> "op", id |-> id]
Ext(x) == [k |-> "ext", id |-> x]
Err(x) == [k |-> "err", id |-> x]
Sw(e, s, arms, dflt) == [k |-> "sw", e |-> e, s |-> s, arms |-> arms, dflt |-> dflt]
ByIsa(n32, n64) == [k |-> "isa", n32 |-> n32, n64 |-> n64]
Dev(f, ideal, actual) == [k |-> "dev", id |-> f, ideal |-> ideal, actual |-> actual]
Only64(id) == ByIsa(Err("OnlyRv64Inst"), Op(id))

RECURSIVE Walk(_, _, _, _)
Walk(n, w, isa, side) ==
    CASE n.k = "sw" ->
           LET v == Slice(w, n.e, n.s)
               hit == {j \in 1..Len(n.arms) : n.arms[j][1] = v}
           IN Walk(IF hit = {} THEN n.dflt ELSE n.arms[CHOOSE j \in hit : TRUE][2], w, isa, side)
      [] n.k = "isa" -> Walk(IF isa = 32 THEN n.n32 ELSE n.n64, w, isa, side)
      [] n.k = "dev" -> Walk(IF side = "ideal" THEN n.ideal ELSE n.actual, w, isa, side)
      [] OTHER -> n

\* Is the word one the crate is known to treat differently from the listing?
RECURSIVE Deviates(_, _, _)
Deviates(n, w, isa) ==
    CASE n.k = "sw" ->
           LET v == Slice(w, n.e, n.s)
               hit == {j \in 1..Len(n.arms) : n.arms[j][1] = v}
           IN Deviates(IF hit = {} THEN n.dflt ELSE n.arms[CHOOSE j \in hit : TRUE][2], w, isa)
      [] n.k = "isa" -> Deviates(IF isa = 32 THEN n.n32 ELSE n.n64, w, isa)
      [] n.k = "dev" -> TRUE
      [] OTHER -> FALSE

\* Fields of a 32-bit word.
Opmap(arms, d) == Sw(6, 0, arms, d)
F3(arms, d) == Sw(14, 12, arms, d)
F5(arms, d) == Sw(31, 27, arms, d)
F6(arms, d) == Sw(31, 26, arms, d)
F7(arms, d) == Sw(31, 25, arms, d)
F12(arms, d) == Sw(31, 20, arms, d)
IfRd0(y, n) == Sw(11, 7, << <<0, y>> >>, n)
IfRs1_0(y, n) == Sw(19, 15, << <<0, y>> >>, n)
IfRs2_0(y, n) == Sw(24, 20, << <<0, y>> >>, n)
X == Err("InvalidOpcode")
BadF3 == Err("InvalidFunct3")
BadF5 == Err("InvalidFunct5")
BadF6 == Err("InvalidFunct6")
BadF7 == Err("InvalidFunct7")
Ill == Err("IllegalInstruction")
NoExt == Err("UnknownExtension")

Arms(vals, node) == [j \in 1..Len(vals) |-> << vals[j], node >>]

(***************************************************************************)
(* Stage 1: the extension (u32::parse_extension, u16::parse_extension).    *)
(***************************************************************************)
CounterCsrs == << 3072, 3073, 3074, 3200, 3201, 3202 >>
ExtTree32 ==
  Opmap(<<
    << 15, F3(<< <<0, Ext("Zifencei")>>, <<1, Dev("FENCE_I", Ext("Zifencei"), NoExt)>>, <<2, Ext("Zicboz")>> >>, NoExt) >>,
    << 47, F5(Arms(<< 0, 1, 2, 3, 4, 8, 12, 16, 20, 24, 28 >>, Ext("A")) \o << <<9, Ext("Zicfiss")>> >>, NoExt) >>,
    << 51, F7(<< <<1, Ext("M")>> >>, Ext("BaseI")) >>,
    << 59, F7(<< <<0, Ext("BaseI")>>, <<32, Ext("BaseI")>>, <<1, Ext("M")>> >>, NoExt) >>,
    << 115, F3(<< << 0, F7(<< <<0, Ext("BaseI")>> >>, Ext("Priv")) >>,
                  << 2, IfRs1_0(F12(Arms(SubSeq(CounterCsrs, 1, 3), Ext("Zicntr"))
                                    \o Arms(SubSeq(CounterCsrs, 4, 6), ByIsa(Ext("Zicntr"), Ext("Zicsr"))),
                                    Ext("Zicsr")),
                                Ext("Zicsr")) >>,
                  << 4, Ext("Zicfiss") >> >>,
               Ext("Zicsr")) >>
  >>, Ext("BaseI"))

ExtTree16 == Sw(15, 0, << <<24705, Ext("Zicfiss16")>>, <<25217, Ext("Zicfiss16")>> >>, Ext("C"))

(***************************************************************************)
(* Stage 2: the opcode inside the extension.                               *)
(***************************************************************************)
F7Only0(node) == F7(<< <<0, node>> >>, BadF7)
F7Pair(a, b) == F7(<< <<0, a>>, <<32, b>> >>, BadF7)

BaseITree ==
  Opmap(<<
    <<55, Op("BaseI.LUI")>>, <<23, Op("BaseI.AUIPC")>>, <<111, Op("BaseI.JAL")>>,
    <<103, F3(<< <<0, Op("BaseI.JALR")>> >>, BadF3)>>,
    <<99, F3(<< <<0, Op("BaseI.BEQ")>>, <<1, Op("BaseI.BNE")>>, <<4, Op("BaseI.BLT")>>,
                <<5, Op("BaseI.BGE")>>, <<6, Op("BaseI.BLTU")>>, <<7, Op("BaseI.BGEU")>> >>, BadF3)>>,
    <<3, F3(<< <<0, Op("BaseI.LB")>>, <<1, Op("BaseI.LH")>>, <<2, Op("BaseI.LW")>>, <<3, Only64("BaseI.LD")>>,
               <<4, Op("BaseI.LBU")>>, <<5, Op("BaseI.LHU")>>, <<6, Only64("BaseI.LWU")>> >>, BadF3)>>,
    <<35, F3(<< <<0, Op("BaseI.SB")>>, <<1, Op("BaseI.SH")>>, <<2, Op("BaseI.SW")>>, <<3, Only64("BaseI.SD")>> >>, BadF3)>>,
    <<19, F3(<< <<0, Op("BaseI.ADDI")>>,
                <<1, ByIsa(F7Only0(Op("BaseI.SLLI")), F6(<< <<0, Op("BaseI.SLLI")>> >>, BadF6))>>,
                <<2, Op("BaseI.SLTI")>>, <<3, Op("BaseI.SLTIU")>>, <<4, Op("BaseI.XORI")>>,
                <<5, ByIsa(F7Pair(Op("BaseI.SRLI"), Op("BaseI.SRAI")),
                           F6(<< <<0, Op("BaseI.SRLI")>>, <<16, Op("BaseI.SRAI")>> >>, BadF6))>>,
                <<6, Op("BaseI.ORI")>>, <<7, Op("BaseI.ANDI")>> >>, BadF3)>>,
    <<51, F3(<< <<0, F7Pair(Op("BaseI.ADD"), Op("BaseI.SUB"))>>, <<1, F7Only0(Op("BaseI.SLL"))>>,
                <<2, F7Only0(Op("BaseI.SLT"))>>, <<3, F7Only0(Op("BaseI.SLTU"))>>, <<4, F7Only0(Op("BaseI.XOR"))>>,
                <<5, F7Pair(Op("BaseI.SRL"), Op("BaseI.SRA"))>>, <<6, F7Only0(Op("BaseI.OR"))>>,
                <<7, F7Only0(Op("BaseI.AND"))>> >>, BadF3)>>,
    <<115, F3(<< <<0, F7Only0(Sw(24, 20, << <<0, IfRd0(IfRs1_0(Op("BaseI.ECALL"), Ill), Ill)>>,
                                           <<1, IfRd0(IfRs1_0(Op("BaseI.EBREAK"), Ill), Ill)>> >>, BadF5))>> >>, BadF3)>>,
    <<27, F3(<< <<0, Only64("BaseI.ADDIW")>>, <<1, F7Only0(Only64("BaseI.SLLIW"))>>,
                <<5, F7Pair(Only64("BaseI.SRLIW"), Only64("BaseI.SRAIW"))>> >>, BadF3)>>,
    <<59, F3(<< <<0, F7Pair(Only64("BaseI.ADDW"), Only64("BaseI.SUBW"))>>, <<1, F7Only0(Only64("BaseI.SLLW"))>>,
                <<5, F7Pair(Only64("BaseI.SRLW"), Only64("BaseI.SRAW"))>> >>, BadF3)>>
  >>, X)

MTree ==
  Opmap(<<
    <<51, F3(<< <<0, Op("M.MUL")>>, <<1, Op("M.MULH")>>, <<2, Op("M.MULHSU")>>, <<3, Op("M.MULHU")>>,
                <<4, Op("M.DIV")>>, <<5, Op("M.DIVU")>>, <<6, Op("M.REM")>>, <<7, Op("M.REMU")>> >>, BadF3)>>,
    <<59, F3(<< <<0, Only64("M.MULW")>>, <<4, Only64("M.DIVW")>>, <<5, Only64("M.DIVUW")>>,
                <<6, Only64("M.REMW")>>, <<7, Only64("M.REMUW")>> >>, BadF3)>>
  >>, X)

ATree ==
  F3(<< <<2, F5(<< <<2, IfRs2_0(Op("A.LR_W"), Ill)>>, <<3, Op("A.SC_W")>>, <<1, Op("A.AMOSWAP_W")>>,
                   <<0, Op("A.AMOADD_W")>>, <<4, Op("A.AMOXOR_W")>>, <<12, Op("A.AMOAND_W")>>, <<8, Op("A.AMOOR_W")>>,
                   <<16, Op("A.AMOMIN_W")>>, <<20, Op("A.AMOMAX_W")>>, <<24, Op("A.AMOMINU_W")>>,
                   <<28, Op("A.AMOMAXU_W")>> >>, BadF7)>>,
        <<3, F5(<< <<2, IfRs2_0(Only64("A.LR_D"), Ill)>>, <<3, Only64("A.SC_D")>>, <<1, Only64("A.AMOSWAP_D")>>,
                   <<0, Only64("A.AMOADD_D")>>, <<4, Only64("A.AMOXOR_D")>>, <<12, Only64("A.AMOAND_D")>>,
                   <<8, Only64("A.AMOOR_D")>>, <<16, Only64("A.AMOMIN_D")>>, <<20, Only64("A.AMOMAX_D")>>,
                   <<24, Only64("A.AMOMINU_D")>>, <<28, Only64("A.AMOMAXU_D")>> >>, BadF7)>> >>, BadF3)

ZifenceiTree == F3(<< <<0, Op("Zifencei.FENCE")>>, <<1, Op("Zifencei.FENCE_I")>> >>, NoExt)
ZicbozTree == F12(<< <<4, IfRd0(Op("Zicboz.CBO_ZERO"), X)>> >>, X)
ZicsrTree == F3(<< <<1, Op("Zicsr.CSRRW")>>, <<2, Op("Zicsr.CSRRS")>>, <<3, Op("Zicsr.CSRRC")>>,
                   <<5, Op("Zicsr.CSRRWI")>>, <<6, Op("Zicsr.CSRRSI")>>, <<7, Op("Zicsr.CSRRCI")>> >>, BadF3)
ZicntrTree == F12(<< <<3072, Op("Zicntr.RDCYCLE")>>, <<3073, Op("Zicntr.RDTIME")>>, <<3074, Op("Zicntr.RDINSTRET")>>,
                     <<3200, Op("Zicntr.RDCYCLE_H")>>, <<3201, Op("Zicntr.RDTIME_H")>>,
                     <<3202, Op("Zicntr.RDINSTRET_H")>> >>, X)
SsPush == IfRs1_0(IfRd0(Op("Zicfiss.SSPUSH"), X), X)
ZicfissTree ==
  Opmap(<<
    <<115, F12(<< <<3297, SsPush>>, <<3301, SsPush>>,
                  <<3292, Sw(19, 15, << <<0, IfRd0(X, Op("Zicfiss.SSRDP"))>>,
                                        <<1, IfRd0(Op("Zicfiss.SSPOPCHK"), X)>>,
                                        <<5, IfRd0(Op("Zicfiss.SSPOPCHK"), X)>> >>, X)>> >>, X)>>,
    <<47, F3(<< <<2, Op("Zicfiss.SSAMOSWAP_W")>>, <<3, Only64("Zicfiss.SSAMOSWAP_D")>> >>, BadF3)>>
  >>, X)
\* mret/sret/wfi are matched as whole words.
Exact(node) == Sw(19, 7, << <<0, node>> >>, BadF7)
PrivTree == F7(<< <<8, Sw(24, 20, << <<2, Exact(Op("Priv.SRET"))>>, <<5, Exact(Op("Priv.WFI"))>> >>, BadF7)>>,
                  <<24, Sw(24, 20, << <<2, Exact(Op("Priv.MRET"))>> >>, BadF7)>>,
                  <<9, IfRd0(Op("Priv.SFENCE_VMA"), Ill)>> >>, BadF7)

\* ---- compressed -----------------------------------------------------------
F3c(arms) == Sw(15, 13, arms, X)
Rd0c(y, n) == Sw(11, 7, << <<0, y>> >>, n)
Rs2_0c(y, n) == Sw(6, 2, << <<0, y>> >>, n)
Bit12(z, o) == Sw(12, 12, << <<0, z>> >>, o)
Shamt32(node) == ByIsa(Bit12(node, Ill), node)
LuiTree == Bit12(Rs2_0c(Dev("C_LUI_0", Ill, Op("C.LUI")), Op("C.LUI")), Op("C.LUI"))
CTree ==
  Sw(1, 0, <<
    <<0, Sw(15, 0, << <<0, X>> >>,
         F3c(<< <<0, Sw(12, 5, << <<0, Ill>> >>, Op("C.ADDI4SPN"))>>, <<2, Op("C.LW")>>, <<3, Only64("C.LD")>>,
                <<6, Op("C.SW")>>, <<7, Only64("C.SD")>> >>))>>,
    <<1, F3c(<< <<0, Rd0c(Op("C.NOP"), Op("C.ADDI"))>>,
                <<1, ByIsa(Op("C.JAL"), Rd0c(Ill, Op("C.ADDIW")))>>,
                <<2, Op("C.LI")>>,
                <<3, Sw(11, 7, << <<2, Bit12(Rs2_0c(Ill, Op("C.ADDI16SP")), Op("C.ADDI16SP"))>> >>, LuiTree)>>,
                <<4, Sw(11, 10, << <<0, Shamt32(Op("C.SRLI"))>>, <<1, Shamt32(Op("C.SRAI"))>>, <<2, Op("C.ANDI")>> >>,
                        Bit12(Sw(6, 5, << <<0, Op("C.SUB")>>, <<1, Op("C.XOR")>>, <<2, Op("C.OR")>> >>, Op("C.AND")),
                              Sw(6, 5, << <<0, Only64("C.SUBW")>>, <<1, Only64("C.ADDW")>> >>, X)))>>,
                <<5, Op("C.J")>>, <<6, Op("C.BEQZ")>>, <<7, Op("C.BNEZ")>> >>)>>,
    <<2, F3c(<< <<0, Shamt32(Op("C.SLLI"))>>,
                <<2, Rd0c(Ill, Op("C.LWSP"))>>, <<3, Rd0c(Ill, Only64("C.LDSP"))>>,
                <<4, Bit12(Rs2_0c(Rd0c(Ill, Op("C.JR")), Op("C.MV")),
                           Rs2_0c(Rd0c(Op("C.EBREAK"), Op("C.JALR")), Op("C.ADD")))>>,
                <<6, Op("C.SWSP")>>, <<7, Only64("C.SDSP")>> >>)>>
  >>, X)
Zicfiss16Tree == Sw(15, 0, << <<24705, Op("Zicfiss.C_SSPUSH")>>, <<25217, Op("Zicfiss.C_SSPOPCHK")>> >>, X)

OpTree(x) ==
    CASE x = "BaseI" -> BaseITree [] x = "M" -> MTree [] x = "A" -> ATree
      [] x = "Zifencei" -> ZifenceiTree [] x = "Zicboz" -> ZicbozTree [] x = "Zicsr" -> ZicsrTree
      [] x = "Zicntr" -> ZicntrTree [] x = "Zicfiss" -> ZicfissTree [] x = "Priv" -> PrivTree
      [] x = "C" -> CTree [] x = "Zicfiss16" -> Zicfiss16Tree

ExtTree(width) == IF width = 32 THEN ExtTree32 ELSE ExtTree16

\* The two stages joined, for export.
RECURSIVE Join(_)
Join(n) ==
    CASE n.k = "sw" -> Sw(n.e, n.s, [j \in 1..Len(n.arms) |-> << n.arms[j][1], Join(n.arms[j][2]) >>], Join(n.dflt))
      [] n.k = "isa" -> ByIsa(Join(n.n32), Join(n.n64))
      [] n.k = "dev" -> Dev(n.id, Join(n.ideal), Join(n.actual))
      [] n.k = "ext" -> OpTree(n.id)
      [] OTHER -> n
Tree32 == Join(ExtTree32)
Tree16 == Join(ExtTree16)
TreeOf(width) == IF width = 32 THEN Tree32 ELSE Tree16

\* parse_opcode as one step.
ParseOpcode(width, w, isa, side) == Walk(TreeOf(width), w, isa, side)
Deviating(width, w, isa) == Deviates(TreeOf(width), w, isa)

(***************************************************************************)
(* Stages 3-6: operands, extracted the way the crate does it - fixed field *)
(* positions and bit-permutation masks per group of opcodes.  Isa.tla says *)
(* the same through the letters of each encoding; TLC compares the two.    *)
(***************************************************************************)
Prefix(op) == LET dots == {k \in 1..Len(op) : SubSeq(op, k, k) = "."}
            IN SubSeq(op, 1, (CHOOSE k \in dots : \A j \in dots : k <= j) - 1)
ExtOf == [op \in Ops |-> Prefix(op)]
WidthOf == [op \in Ops |-> IF ExtOf[op] = "C" \/ op \in {"Zicfiss.C_SSPUSH", "Zicfiss.C_SSPOPCHK"} THEN 16 ELSE 32]

\* Bits of v, highest first, moved to the positions in mask.
PutBits(v, mask) ==
    LET n == Len(mask)
        RECURSIVE Put(_)
        Put(k) == IF k > n THEN 0 ELSE ((v \div 2^(n - k)) % 2) * 2^(mask[k]) + Put(k + 1)
    IN Put(1)

Branches == {"BaseI.BEQ", "BaseI.BNE", "BaseI.BLT", "BaseI.BGE", "BaseI.BLTU", "BaseI.BGEU"}
Stores == {"BaseI.SB", "BaseI.SH", "BaseI.SW", "BaseI.SD"}
Loads == {"BaseI.LB", "BaseI.LH", "BaseI.LW", "BaseI.LD", "BaseI.LBU", "BaseI.LHU", "BaseI.LWU"}
ArithI == {"BaseI.ADDI", "BaseI.SLTI", "BaseI.SLTIU", "BaseI.XORI", "BaseI.ORI", "BaseI.ANDI", "BaseI.ADDIW"}
Shifts == {"BaseI.SLLI", "BaseI.SRLI", "BaseI.SRAI"}
ShiftsW == {"BaseI.SLLIW", "BaseI.SRLIW", "BaseI.SRAIW"}
Upper == {"BaseI.LUI", "BaseI.AUIPC"}
Traps == {"BaseI.ECALL", "BaseI.EBREAK"}
CsrReg == {"Zicsr.CSRRW", "Zicsr.CSRRS", "Zicsr.CSRRC"}
Lrs == {"A.LR_W", "A.LR_D"}
Swaps == {"Zicfiss.SSAMOSWAP_W", "Zicfiss.SSAMOSWAP_D"}
CQ0L == {"C.LW", "C.LD"}
CQ0S == {"C.SW", "C.SD"}
CArith == {"C.SUB", "C.XOR", "C.OR", "C.AND", "C.SUBW", "C.ADDW"}
CNarrow == {"C.SRLI", "C.SRAI", "C.ANDI"}

None == -1
ParseRd(op, w) ==
    LET x == ExtOf[op] IN
    CASE x = "BaseI" -> IF op \in Branches \cup Stores \cup Traps THEN None ELSE Slice(w, 11, 7)
      [] x \in {"M", "A", "Zicsr", "Zicntr"} \/ op = "Zifencei.FENCE" -> Slice(w, 11, 7)
      [] op \in {"Zicfiss.SSPUSH", "Zicfiss.SSPOPCHK"} -> 0
      [] op \in Swaps \cup {"Zicfiss.SSRDP"} -> Slice(w, 11, 7)
      [] op = "Zicfiss.C_SSPUSH" -> 1
      [] op = "Zicfiss.C_SSPOPCHK" -> 5
      [] op \in {"C.ADDI4SPN"} \cup CQ0L -> Slice(w, 4, 2) + 8
      [] op \in CNarrow \cup CArith -> Slice(w, 9, 7) + 8
      [] op \in {"C.LI", "C.LUI", "C.ADDI", "C.ADDIW", "C.ADDI16SP", "C.SLLI", "C.LWSP", "C.LDSP", "C.MV", "C.ADD"} -> Slice(w, 11, 7)
      [] OTHER -> None
ParseRs1(op, w) ==
    LET x == ExtOf[op] IN
    CASE x = "BaseI" -> IF op \in Upper \cup Traps \cup {"BaseI.JAL"} THEN None ELSE Slice(w, 19, 15)
      [] x \in {"M", "A", "Zicboz"} \/ op \in CsrReg \cup {"Zifencei.FENCE", "Priv.SFENCE_VMA"} -> Slice(w, 19, 15)
      [] op = "Zicfiss.SSPUSH" -> 0
      [] op \in Swaps \cup {"Zicfiss.SSPOPCHK"} -> Slice(w, 19, 15)
      [] op \in CQ0L \cup CQ0S \cup CNarrow \cup CArith \cup {"C.BEQZ", "C.BNEZ"} -> Slice(w, 9, 7) + 8
      [] op \in {"C.ADDI", "C.ADDIW", "C.ADDI16SP", "C.SLLI", "C.JR", "C.JALR", "C.ADD"} -> Slice(w, 11, 7)
      [] OTHER -> None
ParseRs2(op, w) ==
    LET x == ExtOf[op] IN
    CASE x = "Zicsr" -> Slice(w, 31, 20)
      [] op \in Branches \cup Stores -> Slice(w, 24, 20)
      [] x = "BaseI" -> IF RowTable[64][op].fmt = "RFormat" THEN Slice(w, 24, 20) ELSE None
      [] x = "M" \/ (x = "A" /\ op \notin Lrs) -> Slice(w, 24, 20)
      [] op \in Swaps \cup {"Zicfiss.SSPUSH", "Priv.SFENCE_VMA"} -> Slice(w, 24, 20)
      [] op \in CQ0S \cup CArith -> Slice(w, 4, 2) + 8
      [] op \in {"C.JR", "C.JALR", "C.MV", "C.ADD", "C.SWSP", "C.SDSP"} -> Slice(w, 6, 2)
      [] OTHER -> None

IImm(w) == Signed(Slice(w, 31, 20), 12)
SImm(w) == Signed(PutBits(Slice(w, 11, 7), << 4, 3, 2, 1, 0 >>) + PutBits(Slice(w, 31, 25), << 11, 10, 9, 8, 7, 6, 5 >>), 12)
BImm(w) == Signed(PutBits(Slice(w, 11, 7), << 4, 3, 2, 1, 11 >>) + PutBits(Slice(w, 31, 25), << 12, 10, 9, 8, 7, 6, 5 >>), 13)
JImm(w) == Signed(PutBits(Slice(w, 31, 12), << 20, 10, 9, 8, 7, 6, 5, 4, 3, 2, 1, 11, 19, 18, 17, 16, 15, 14, 13, 12 >>), 21)
C6(w) == Slice(w, 6, 2) + 32 * Slice(w, 12, 12)
Has(v) == [has |-> TRUE, v |-> v]
HasNot == [has |-> FALSE, v |-> 0]
ParseImm(op, w, isa) ==
    LET x == ExtOf[op] IN
    CASE op \in Upper -> Has(Slice(w, 31, 12))
      [] op = "BaseI.JAL" -> Has(JImm(w))
      [] op \in Branches -> Has(BImm(w))
      [] op \in Stores -> Has(SImm(w))
      [] op \in Loads \cup ArithI \cup {"BaseI.JALR"} -> Has(IImm(w))
      [] op \in Shifts -> Has(IF isa = 32 THEN Slice(w, 24, 20) ELSE Slice(w, 25, 20))
      [] op \in ShiftsW -> Has(Slice(w, 24, 20))
      [] op = "Zifencei.FENCE" -> Has(Slice(w, 31, 20))
      [] x = "A" -> Has(Slice(w, 26, 25))
      [] x = "Zicsr" /\ op \notin CsrReg -> Has(Slice(w, 19, 15))
      [] op = "C.ADDI4SPN" -> Has(PutBits(Slice(w, 12, 5), << 5, 4, 9, 8, 7, 6, 2, 3 >>))
      [] op \in {"C.LW", "C.SW"} -> Has(PutBits(Slice(w, 12, 10), << 5, 4, 3 >>) + PutBits(Slice(w, 6, 5), << 2, 6 >>))
      [] op \in {"C.LD", "C.SD"} -> Has(PutBits(Slice(w, 12, 10), << 5, 4, 3 >>) + PutBits(Slice(w, 6, 5), << 7, 6 >>))
      [] op \in {"C.NOP", "C.ADDI", "C.ADDIW", "C.LI", "C.ANDI"} -> Has(Signed(C6(w), 6))
      [] op \in WideShift -> Has(C6(w))
      [] op \in {"C.J", "C.JAL"} -> Has(Signed(PutBits(Slice(w, 12, 2), << 11, 4, 9, 8, 10, 6, 7, 3, 2, 1, 5 >>), 12))
      [] op \in {"C.BEQZ", "C.BNEZ"} ->
           Has(Signed(PutBits(Slice(w, 6, 2), << 7, 6, 2, 1, 5 >>) + PutBits(Slice(w, 12, 10), << 8, 4, 3 >>), 9))
      [] op = "C.ADDI16SP" ->
           Has(Signed(PutBits(Slice(w, 6, 2), << 4, 6, 8, 7, 5 >>) + PutBits(Slice(w, 12, 12), << 9 >>), 10))
      [] op = "C.LUI" -> Has(Signed(C6(w) * 4096, 18))
      [] op = "C.LWSP" -> Has(PutBits(Slice(w, 6, 2), << 4, 3, 2, 7, 6 >>) + 32 * Slice(w, 12, 12))
      [] op = "C.LDSP" -> Has(PutBits(Slice(w, 6, 2), << 4, 3, 8, 7, 6 >>) + 32 * Slice(w, 12, 12))
      [] op = "C.SWSP" -> Has(PutBits(Slice(w, 12, 7), << 5, 4, 3, 2, 7, 6 >>))
      [] op = "C.SDSP" -> Has(PutBits(Slice(w, 12, 7), << 5, 4, 3, 8, 7, 6 >>))
      [] OTHER -> HasNot

\* get_format.
FormatOf == [op \in Ops |-> RowTable[64][op].fmt]

\* Operand parsers refuse an opcode of the other width.
WrongWidth(width) == IF width = 32 THEN "Not32BitInst" ELSE "Not16BitInst"

(***************************************************************************)
(* Replies.                                                                *)
(***************************************************************************)
Blank == [op |-> "", rd |-> None, rs1 |-> None, rs2 |-> None, himm |-> FALSE, imm |-> 0, fmt |-> "", compressed |-> FALSE]
\* Equality of instructions: field by field.
Fields(i) == << i.op, i.rd, i.rs1, i.rs2, << i.himm, i.imm >>, i.fmt, i.compressed >>
SameInstruction(i, j) == \A k \in 1..7 : Fields(i)[k] = Fields(j)[k]
Ok(v) == [ok |-> TRUE, e |-> "", v |-> v]
Fail(e) == [ok |-> FALSE, e |-> e, v |-> Blank]

Decoded(op, width, w, isa) ==
    LET im == ParseImm(op, w, isa) IN
    [ op |-> op, rd |-> ParseRd(op, w), rs1 |-> ParseRs1(op, w), rs2 |-> ParseRs2(op, w),
      himm |-> im.has, imm |-> im.v, fmt |-> FormatOf[op], compressed |-> (width = 16) ]

DecodeSide(width, w, isa, side) ==
    IF width = 16 /\ w[2] = 0 THEN Fail("IllegalInstruction")
    ELSE LET leaf == ParseOpcode(width, w, isa, side) IN
         IF leaf.k = "err" THEN Fail(leaf.id) ELSE Ok(Decoded(leaf.id, width, w, isa))
Decode(width, w, isa) == DecodeSide(width, w, isa, "actual")

\* TryFrom<usize>: a 64-bit integer as four halves, most significant first.
Convert(q) ==
    IF q[4] % 4 = 3
    THEN IF q[1] # 0 \/ q[2] # 0 THEN Fail("Not32BitInst") ELSE Decode(32, << q[3], q[4] >>, 64)
    ELSE IF q[1] # 0 \/ q[2] # 0 \/ q[3] # 0 THEN Fail("Not16BitInst") ELSE Decode(16, << 0, q[4] >>, 64)
===========================================================================
