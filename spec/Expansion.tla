----------------------------- MODULE Expansion -----------------------------
(***************************************************************************)
(* Every compressed instruction stands for one 32-bit instruction (the     *)
(* "expands to" column of the C and Zicfiss chapters).  A rule names that  *)
(* instruction and says where each of its operands comes from:             *)
(*   "rd" "rs1" "rs2"  the operand of that name of the short form          *)
(*   "0" "1" "2"       an implied register                                 *)
(*   ""                the long form has no such operand                   *)
(* and for the immediate                                                   *)
(*   "imm"  the same number     "0"  zero     ""  none                     *)
(*   "hi"   bits 31..12 of it as the raw 20-bit field of lui               *)
(***************************************************************************)
EXTENDS Render

To(op, rd, rs1, rs2, imm) == [to |-> op, rd |-> rd, rs1 |-> rs1, rs2 |-> rs2, imm |-> imm]
Rule(op) ==
    CASE op = "C.ADDI4SPN" -> To("BaseI.ADDI", "rd", "2", "", "imm")
      [] op = "C.LW" -> To("BaseI.LW", "rd", "rs1", "", "imm")
      [] op = "C.LD" -> To("BaseI.LD", "rd", "rs1", "", "imm")
      [] op = "C.SW" -> To("BaseI.SW", "", "rs1", "rs2", "imm")
      [] op = "C.SD" -> To("BaseI.SD", "", "rs1", "rs2", "imm")
      [] op = "C.NOP" -> To("BaseI.ADDI", "0", "0", "", "imm")
      [] op = "C.ADDI" -> To("BaseI.ADDI", "rd", "rs1", "", "imm")
      [] op = "C.JAL" -> To("BaseI.JAL", "1", "", "", "imm")
      [] op = "C.ADDIW" -> To("BaseI.ADDIW", "rd", "rs1", "", "imm")
      [] op = "C.LI" -> To("BaseI.ADDI", "rd", "0", "", "imm")
      [] op = "C.ADDI16SP" -> To("BaseI.ADDI", "rd", "rs1", "", "imm")
      [] op = "C.LUI" -> To("BaseI.LUI", "rd", "", "", "hi")
      [] op = "C.SRLI" -> To("BaseI.SRLI", "rd", "rs1", "", "imm")
      [] op = "C.SRAI" -> To("BaseI.SRAI", "rd", "rs1", "", "imm")
      [] op = "C.ANDI" -> To("BaseI.ANDI", "rd", "rs1", "", "imm")
      [] op = "C.SUB" -> To("BaseI.SUB", "rd", "rs1", "rs2", "")
      [] op = "C.XOR" -> To("BaseI.XOR", "rd", "rs1", "rs2", "")
      [] op = "C.OR" -> To("BaseI.OR", "rd", "rs1", "rs2", "")
      [] op = "C.AND" -> To("BaseI.AND", "rd", "rs1", "rs2", "")
      [] op = "C.SUBW" -> To("BaseI.SUBW", "rd", "rs1", "rs2", "")
      [] op = "C.ADDW" -> To("BaseI.ADDW", "rd", "rs1", "rs2", "")
      [] op = "C.J" -> To("BaseI.JAL", "0", "", "", "imm")
      [] op = "C.BEQZ" -> To("BaseI.BEQ", "", "rs1", "0", "imm")
      [] op = "C.BNEZ" -> To("BaseI.BNE", "", "rs1", "0", "imm")
      [] op = "C.SLLI" -> To("BaseI.SLLI", "rd", "rs1", "", "imm")
      [] op = "C.LWSP" -> To("BaseI.LW", "rd", "2", "", "imm")
      [] op = "C.LDSP" -> To("BaseI.LD", "rd", "2", "", "imm")
      [] op = "C.JR" -> To("BaseI.JALR", "0", "rs1", "", "0")
      [] op = "C.MV" -> To("BaseI.ADD", "rd", "0", "rs2", "")
      [] op = "C.EBREAK" -> To("BaseI.EBREAK", "", "", "", "")
      [] op = "C.JALR" -> To("BaseI.JALR", "1", "rs1", "", "0")
      [] op = "C.ADD" -> To("BaseI.ADD", "rd", "rs1", "rs2", "")
      [] op = "C.SWSP" -> To("BaseI.SW", "", "2", "rs2", "imm")
      [] op = "C.SDSP" -> To("BaseI.SD", "", "2", "rs2", "imm")
      [] op = "Zicfiss.C_SSPUSH" -> To("Zicfiss.SSPUSH", "0", "0", "rd", "")
      [] op = "Zicfiss.C_SSPOPCHK" -> To("Zicfiss.SSPOPCHK", "0", "rd", "", "")
ShortOps == {o \in Ops : WidthOf[o] = 16}
Rules == [op \in ShortOps |-> Rule(op)]

Take(src, i) == CASE src = "" -> None
                  [] src = "0" -> 0
                  [] src = "1" -> 1
                  [] src = "2" -> 2
                  [] src = "rd" -> i.rd
                  [] src = "rs1" -> i.rs1
                  [] src = "rs2" -> i.rs2
TakeImm32(src, i) == CASE src \in {"", "0"} -> 0
                       [] src = "imm" -> i.imm
                       [] src = "hi" -> (i.imm \div 4096) % 1048576
\* The 32-bit instruction the compressed instruction i stands for.
Expand(i) == LET r == Rules[i.op] IN
    [ op |-> r.to, rd |-> Take(r.rd, i), rs1 |-> Take(r.rs1, i), rs2 |-> Take(r.rs2, i),
      himm |-> r.imm # "", imm |-> TakeImm32(r.imm, i), fmt |-> FormatOf[r.to], compressed |-> FALSE ]
\* ... and its word.
ExpandWord(i, isa) == Encode(RowTable[isa][Rules[i.op].to], Expand(i))

(***************************************************************************)
(* Facts about the rules: a rule names a 32-bit instruction available      *)
(* wherever the short form is, supplies exactly the operands that          *)
(* instruction has, and uses only operands the short form has.             *)
(***************************************************************************)
IsasOf(op) == UNION {AllRows[k].isas : k \in {x \in 1..Len(AllRows) : AllRows[x].id = op}}
Uses(src, r) == CASE src = "rd" -> r.rd.k # "none" [] src = "rs1" -> r.rs1.k # "none" [] src = "rs2" -> r.rs2.k # "none"
                  [] OTHER -> TRUE
RulesSound == \A op \in ShortOps :
    LET r == Rules[op]
        long == RowTable[64][r.to]
        short == RowTable[64][op]
    IN /\ WidthOf[r.to] = 32
       /\ IsasOf(op) \subseteq IsasOf(r.to)
       /\ (r.rd # "") <=> (long.rd.k # "none")
       /\ (r.rs1 # "") <=> (long.rs1.k # "none")
       /\ (r.rs2 # "") <=> (long.rs2.k # "none")
       /\ (r.imm # "") <=> long.himm
       /\ Uses(r.rd, short) /\ Uses(r.rs1, short) /\ Uses(r.rs2, short)
       /\ r.imm \in {"imm", "hi"} => short.himm
       \* Nothing of the short form is dropped, except the zero rs2 field of jumps to a register.
       /\ short.himm => r.imm \in {"imm", "hi"}
       /\ short.rs2.k = "field" => r.rs2 = "rs2"
       /\ short.rd.k = "field" => r.rd = "rd"
       /\ short.rs1.k = "field" => r.rs1 = "rs1"
===========================================================================
