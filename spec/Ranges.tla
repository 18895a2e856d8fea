------------------------------- MODULE Ranges -------------------------------
(***************************************************************************)
(* Which values can each operand of an instruction take?  Stated from the  *)
(* prose of the manual ("conditional branches: +-4 KiB in multiples of 2   *)
(* bytes"), not from the bit layouts of Isa.tla; RangesSound checks that   *)
(* the two transcriptions agree.                                           *)
(***************************************************************************)
EXTENDS Expansion

\* lo, lo + step, ..., hi; without 0 if zero is FALSE.  No immediate at all: has FALSE.
Span(lo, hi, step) == [has |-> TRUE, lo |-> lo, hi |-> hi, step |-> step, zero |-> TRUE]
NoSpan == [has |-> FALSE, lo |-> 0, hi |-> 0, step |-> 1, zero |-> TRUE]
But0(s) == [s EXCEPT !.zero = FALSE]
SBits(n, step) == Span(-(2^(n - 1)), 2^(n - 1) - step, step)
UBits(n, step) == Span(0, 2^n - step, step)

ImmRange(op, isa) ==
    CASE op \in Loads \cup Stores \cup ArithI \cup {"BaseI.JALR"} -> Span(-2048, 2047, 1)
      [] op \in Branches -> Span(-4096, 4094, 2)
      [] op = "BaseI.JAL" -> Span(-1048576, 1048574, 2)
      [] op \in Upper -> Span(0, 1048575, 1)
      [] op \in Shifts \cup WideShift -> Span(0, isa - 1, 1)
      [] op \in ShiftsW -> Span(0, 31, 1)
      [] op = "Zifencei.FENCE" -> Span(0, 4095, 1)
      [] ExtOf[op] = "A" -> Span(0, 3, 1)
      [] ExtOf[op] = "Zicsr" /\ op \notin CsrReg -> Span(0, 31, 1)
      [] op = "C.ADDI4SPN" -> But0(Span(0, 1020, 4))
      [] op \in {"C.LW", "C.SW"} -> Span(0, 124, 4)
      [] op \in {"C.LD", "C.SD"} -> Span(0, 248, 8)
      [] op \in {"C.LWSP", "C.SWSP"} -> Span(0, 252, 4)
      [] op \in {"C.LDSP", "C.SDSP"} -> Span(0, 504, 8)
      [] op \in {"C.NOP", "C.ADDI", "C.ADDIW", "C.LI", "C.ANDI"} -> Span(-32, 31, 1)
      [] op \in {"C.J", "C.JAL"} -> Span(-2048, 2046, 2)
      [] op \in {"C.BEQZ", "C.BNEZ"} -> Span(-256, 254, 2)
      [] op = "C.ADDI16SP" -> But0(Span(-512, 496, 16))
      [] op = "C.LUI" -> But0(Span(-131072, 126976, 4096))
      [] OTHER -> NoSpan

AnyReg == 0..31
Popular == 8..15          \* the registers of the 3-bit fields
Link == {1, 5}
NoValue == {}
Pops(op) == op \in {"C.ADDI4SPN"} \cup CQ0L \cup CQ0S \cup CArith \cup CNarrow \cup {"C.BEQZ", "C.BNEZ"}
Has3(op, f) == RowTable[64][op][f].k # "none"
RdRange(op) ==
    IF ~Has3(op, "rd") THEN NoValue
    ELSE CASE op \in {"Zicfiss.SSPUSH", "Zicfiss.SSPOPCHK"} -> {0}
           [] op = "Zicfiss.C_SSPUSH" -> {1}
           [] op = "Zicfiss.C_SSPOPCHK" -> {5}
           [] op = "C.ADDI16SP" -> {2}
           [] op = "C.LUI" -> AnyReg \ {2}
           [] op \in {"C.ADDI", "C.ADDIW", "C.LWSP", "C.LDSP", "Zicfiss.SSRDP"} -> AnyReg \ {0}
           [] Pops(op) -> Popular
           [] OTHER -> AnyReg
Rs1Range(op) ==
    IF ~Has3(op, "rs1") THEN NoValue
    ELSE CASE op = "Zicfiss.SSPUSH" -> {0}
           [] op = "Zicfiss.SSPOPCHK" -> Link
           [] op = "C.ADDI16SP" -> {2}
           [] op \in {"C.ADDI", "C.ADDIW", "C.JR", "C.JALR"} -> AnyReg \ {0}
           [] Pops(op) -> Popular
           [] OTHER -> AnyReg
Rs2Range(op) ==
    IF ~Has3(op, "rs2") THEN NoValue
    ELSE CASE op = "Zicfiss.SSPUSH" -> Link
           [] ExtOf[op] = "Zicsr" -> 0..4095
           [] op \in {"C.JR", "C.JALR"} -> {0}
           [] op \in {"C.MV", "C.ADD"} -> AnyReg \ {0}
           [] Pops(op) -> Popular
           [] OTHER -> AnyReg

Within(v, S) == IF S = NoValue THEN v = None ELSE v \in S
InSpan(i, s) == /\ i.himm = s.has
                /\ s.has => i.imm >= s.lo /\ i.imm <= s.hi /\ (i.imm - s.lo) % s.step = 0 /\ (s.zero \/ i.imm # 0)
InRanges(i, isa) == /\ Within(i.rd, RdRange(i.op)) /\ Within(i.rs1, Rs1Range(i.op)) /\ Within(i.rs2, Rs2Range(i.op))
                    /\ InSpan(i, ImmRange(i.op, isa))

(***************************************************************************)
(* Soundness of the table.  Immediates: the targets of the layout are the  *)
(* bits of the span.  Registers and the ends of every span: there is a     *)
(* word with that value, and it decodes to it.                             *)
(***************************************************************************)
LayoutSpan(r) ==
    IF ~r.himm THEN NoSpan
    ELSE LET T == {r.pairs[j][2] : j \in 1..Len(r.pairs)}
             s == IF r.sg > 0 THEN SBits(Max(T) + 1, 2^Min(T)) ELSE UBits(Max(T) + 1, 2^Min(T))
         IN IF \E k \in 1..Len(r.nz) : r.nz[k] = {r.pairs[j][1] : j \in 1..Len(r.pairs)} THEN But0(s) ELSE s
Contiguous3(r) == LET T == {r.pairs[j][2] : j \in 1..Len(r.pairs)} IN T = {} \/ T = Min(T)..Max(T)
SomeOf(S) == IF S = NoValue THEN None ELSE CHOOSE x \in S : \A y \in S : x >= y
Typical(op, isa) ==
    [ op |-> op, rd |-> SomeOf(RdRange(op)), rs1 |-> SomeOf(Rs1Range(op)), rs2 |-> SomeOf(Rs2Range(op)),
      himm |-> ImmRange(op, isa).has, imm |-> ImmRange(op, isa).hi, fmt |-> FormatOf[op], compressed |-> (WidthOf[op] = 16) ]
TwoAddress(op) == LET r == RowTable[64][op] IN r.rd = r.rs1 /\ r.rd.k = "field"
SetRd(i, v) == IF TwoAddress(i.op) THEN [i EXCEPT !.rd = v, !.rs1 = v] ELSE [i EXCEPT !.rd = v]
SetRs1(i, v) == IF TwoAddress(i.op) THEN [i EXCEPT !.rd = v, !.rs1 = v] ELSE [i EXCEPT !.rs1 = v]
Ends(s) == {v \in {s.lo, s.lo + s.step, 0, s.step, -s.step, s.hi - s.step, s.hi} : v >= s.lo /\ v <= s.hi /\ (s.zero \/ v # 0)}
Few(S) == IF Cardinality(S) > 64 THEN {0, 1, 2047, 2048, 3071, 4095} ELSE S
Witnesses(op, isa) ==
    LET i == Typical(op, isa)
        m == ImmRange(op, isa)
    IN {i} \cup {SetRd(i, v) : v \in RdRange(op)} \cup {SetRs1(i, v) : v \in Rs1Range(op)}
           \cup {[i EXCEPT !.rs2 = v] : v \in Few(Rs2Range(op))}
           \cup (IF m.has THEN {[i EXCEPT !.imm = v] : v \in Ends(m)} ELSE {})
Reached(op, isa) == \A i \in Witnesses(op, isa) :
    /\ InRanges(i, isa)
    /\ Decode(WidthOf[op], Encode(RowTable[isa][op], i), isa) = Ok(i)
RangesSound == \A op \in CrateOps : \A isa \in IsasOf(op) :
    /\ LayoutSpan(RowTable[isa][op]) = ImmRange(op, isa) /\ Contiguous3(RowTable[isa][op])
    /\ Reached(op, isa)
===========================================================================
