----------------------------- MODULE Assembler -----------------------------
(***************************************************************************)
(* Reading printed text as assembly.  The text is cut into words at        *)
(* spaces, commas and parentheses.  The first word names the instruction;  *)
(* the others are matched with the template of Render.tla.  Registers may  *)
(* be ABI names or x0..x31, numbers decimal or hexadecimal: how a value is *)
(* spelled is C19's business, here it only has to be the right value.      *)
(* Operands outside the ranges of Ranges.tla are refused, as an assembler  *)
(* would.  Bits of operands that the text does not mention are zero.       *)
(***************************************************************************)
EXTENDS Ranges

\* The template as words.
RECURSIVE WantedFrom(_, _)
WantedFrom(tpl, k) ==
    IF k > Len(tpl) THEN << >>
    ELSE IF tpl[k].t = "lit" THEN LET ws == WordsFrom(tpl[k].s, 1, "", << >>) IN [j \in 1..Len(ws) |-> Lit(ws[j])] \o WantedFrom(tpl, k + 1)
    ELSE << tpl[k] >> \o WantedFrom(tpl, k + 1)
Wanted == [op \in Ops |-> WantedFrom(Templates[op], 1)]
LowerMnemonics == [op \in Ops |-> Lower(Mnemonics[op])]

\* Numbers.  A value is a sequence of at most one integer: << >> is "not a number".
HexChars == "0123456789abcdef"
HexVal(c) == LET S == {k \in 1..16 : SubSeq(HexChars, k, k) = c} IN IF S = {} THEN 99 ELSE (CHOOSE k \in S : TRUE) - 1
AllBelow(s, k, base) == \A j \in k..Len(s) : HexVal(SubSeq(s, j, j)) < base
RECURSIVE HexOf(_, _, _)
HexOf(s, k, acc) == IF k > Len(s) THEN acc ELSE HexOf(s, k + 1, acc * 16 + HexVal(SubSeq(s, k, k)))
\* 0x...: 32-bit two's complement, so the first of eight digits carries the sign.
HexNumber(s) ==
    IF Len(s) < 3 \/ Len(s) > 10 \/ ~AllBelow(s, 3, 16) THEN << >>
    ELSE IF Len(s) < 10 THEN << HexOf(s, 3, 0) >>
    ELSE LET d == HexVal(SubSeq(s, 3, 3)) IN << (IF d >= 8 THEN d - 16 ELSE d) * 268435456 + HexOf(s, 4, 0) >>
DecNumber(s, k) == IF Len(s) < k \/ Len(s) > k + 8 \/ ~AllBelow(s, k, 10) THEN << >> ELSE << NatOf(s, k, 0) >>
Number(s) ==
    IF Len(s) >= 2 /\ SubSeq(s, 1, 2) = "0x" THEN HexNumber(s)
    ELSE IF Len(s) >= 1 /\ SubSeq(s, 1, 1) = "-"
    THEN LET n == DecNumber(s, 2) IN IF n = << >> THEN << >> ELSE << -n[1] >>
    ELSE DecNumber(s, 1)
Register(s) ==
    LET S == {k \in 1..32 : Abi[k] = s} IN
    IF S # {} THEN << (CHOOSE k \in S : TRUE) - 1 >>
    ELSE IF s = "fp" THEN << 8 >>
    ELSE IF Len(s) >= 2 /\ SubSeq(s, 1, 1) = "x"
    THEN LET n == DecNumber(s, 2) IN IF n # << >> /\ n[1] \in 0..31 THEN n ELSE << >>
    ELSE << >>

ValueOf(tok, s) == CASE tok.t = "lit" -> IF s = tok.s THEN << 0 >> ELSE << >>
                     [] tok.t \in {"rd", "rs1", "rs2"} -> Register(s)
                     [] OTHER -> Number(s)
Slot(t) == CASE t \in {"csrx", "csrd"} -> "rs2" [] t = "immx" -> "imm" [] OTHER -> t
Places(op, f) == {k \in 1..Len(Wanted[op]) : Slot(Wanted[op][k].t) = f}

\* The bits of row r that its text does not tell.
FieldBits(r, f) == IF f = "imm" THEN {r.pairs[j][1] : j \in 1..Len(r.pairs)} ELSE IF r[f].k = "field" THEN r[f].s..r[f].e ELSE {}
AllSlots == {"rd", "rs1", "rs2", "imm"}
ToldBits(r) == UNION {FieldBits(r, f) : f \in {g \in AllSlots : Shown(r.id, g)}}
HiddenBits(r) == (0..(r.width - 1)) \ (BitsOf(r.q.m) \cup ToldBits(r))

Allowed(op, isa, f, v) ==
    CASE f = "rd" -> Within(v, RdRange(op))
      [] f = "rs1" -> Within(v, Rs1Range(op))
      [] f = "rs2" -> Within(v, Rs2Range(op))
      [] f = "imm" -> InSpan([himm |-> TRUE, imm |-> v], ImmRange(op, isa))
\* vals[k]: the value of word k of the text after the mnemonic.
Fill(op, isa, vals) ==
    LET r == RowTable[isa][op]
        The(f) == vals[CHOOSE k \in Places(op, f) : TRUE][1]
        Put(f) == IF Places(op, f) = {} THEN {}
                  ELSE IF f = "imm" THEN ImmBits(r, The(f)) ELSE RegBits(r[f], The(f))
        good == \A f \in AllSlots : \A k \in Places(op, f) : vals[k][1] = The(f) /\ Allowed(op, isa, f, vals[k][1])
    IN IF good THEN << [op |-> op, w |-> WordOf(BitsOf(r.q.v) \cup UNION {Put(f) : f \in AllSlots})] >> ELSE << >>
\* << [op, w] >>, or << >> if the text is not an instruction of the ISA.
Assemble(str, isa) ==
    LET ws == WordsFrom(str, 1, "", << >>) IN
    IF ws = << >> THEN << >>
    ELSE LET name == Lower(ws[1])
             S == {op \in CrateOps : LowerMnemonics[op] = name /\ isa \in IsasOf(op)}
         IN IF Cardinality(S) # 1 THEN << >>
            ELSE LET op == CHOOSE x \in S : TRUE
                     want == Wanted[op]
                     vals == [k \in 1..Len(want) |-> IF k + 1 > Len(ws) THEN << >> ELSE ValueOf(want[k], ws[k + 1])]
                 IN IF Len(ws) # Len(want) + 1 \/ \E k \in 1..Len(want) : vals[k] = << >> THEN << >>
                    ELSE Fill(op, isa, vals)
\* Does the text stand for word w?
StandsFor(str, width, w, isa) ==
    LET a == Assemble(str, isa) IN
    /\ a # << >> /\ WidthOf[a[1].op] = width
    /\ a[1].w = Clear(w, HiddenBits(RowTable[isa][a[1].op]))

\* What is not told: the operands of fence, the ordering bits of atomics (but lr.w), c.nop's immediate.
HiddenOps == {op \in CrateOps : \E isa \in IsasOf(op) : HiddenBits(RowTable[isa][op]) # {}}
AssemblerSound ==
    /\ HiddenOps = {"Zifencei.FENCE", "C.NOP"} \cup Swaps \cup {op \in CrateOps : ExtOf[op] = "A" /\ op # "A.LR_W"}
    /\ \A op \in HiddenOps : LET h == HiddenBits(RowTable[64][op]) IN
         CASE op = "Zifencei.FENCE" -> h = 7..11 \cup 15..31
           [] op = "C.NOP" -> h = 2..6 \cup {12}
           [] OTHER -> h = {25, 26}
    /\ Cardinality({LowerMnemonics[op] : op \in CrateOps}) = Cardinality(CrateOps)
===========================================================================
