------------------------------ MODULE Pipeline ------------------------------
(***************************************************************************)
(* One decode call as a state machine, one action per stage of the crate's *)
(* Decode::decode followed by Display.  Each property Cxx is stated over   *)
(* it, against the listing of Isa.tla.                                     *)
(***************************************************************************)
EXTENDS Assembler

CONSTANTS Groups,      \* calls come in groups so that TLC's workers share them
          CallsOf(_)   \* the set of calls [width, w, isa] of a group

VARIABLES pc,        \* stage about to run; "done"/"printed" at the end
          call,      \* the arguments
          ext,       \* extension chosen by stage 1
          ins,       \* the instruction under construction
          out,       \* reply of decode (meaningful from "done" on)
          text       \* what Display printed (meaningful in "printed")
vars == << pc, call, ext, ins, out, text >>

NoReply == Fail("")

Init == /\ \E g \in Groups : call = [group |-> g]
        /\ pc = "idle" /\ ext = "" /\ ins = Blank /\ out = NoReply /\ text = ""

Refuse(e) == pc' = "done" /\ out' = Fail(e) /\ UNCHANGED << call, ext, ins, text >>
Goto(s) == pc' = s /\ UNCHANGED << call, out, text >>

\* The caller submits a word.
Submit == /\ pc = "idle"
          /\ \E c \in CallsOf(call.group) : call' = c
          /\ pc' = "entry" /\ UNCHANGED << ext, ins, out, text >>
\* u16::decode looks for the all-zero word before anything else.
Entry == /\ pc = "entry"
         /\ IF call.width = 16 /\ call.w[2] = 0 THEN Refuse("IllegalInstruction")
            ELSE Goto("extension") /\ UNCHANGED << ext, ins >>
ChooseExtension ==
    /\ pc = "extension"
    /\ LET leaf == Walk(ExtTree(call.width), call.w, call.isa, "actual") IN
       IF leaf.k = "err" THEN Refuse(leaf.id)
       ELSE ext' = leaf.id /\ Goto("opcode") /\ UNCHANGED ins
ChooseOpcode ==
    /\ pc = "opcode"
    /\ LET leaf == Walk(OpTree(ext), call.w, call.isa, "actual") IN
       IF leaf.k = "err" THEN Refuse(leaf.id)
       ELSE ins' = [ins EXCEPT !.op = leaf.id] /\ Goto("rd") /\ UNCHANGED ext
TakeRd == pc = "rd" /\ ins' = [ins EXCEPT !.rd = ParseRd(ins.op, call.w)] /\ Goto("rs1") /\ UNCHANGED ext
TakeRs1 == pc = "rs1" /\ ins' = [ins EXCEPT !.rs1 = ParseRs1(ins.op, call.w)] /\ Goto("rs2") /\ UNCHANGED ext
TakeRs2 == pc = "rs2" /\ ins' = [ins EXCEPT !.rs2 = ParseRs2(ins.op, call.w)] /\ Goto("imm") /\ UNCHANGED ext
TakeImm == /\ pc = "imm"
           /\ LET im == ParseImm(ins.op, call.w, call.isa) IN ins' = [ins EXCEPT !.himm = im.has, !.imm = im.v]
           /\ Goto("format") /\ UNCHANGED ext
AttachFormat ==
    /\ pc = "format"
    /\ ins' = [ins EXCEPT !.fmt = FormatOf[ins.op], !.compressed = (call.width = 16)]
    /\ pc' = "done" /\ out' = Ok(ins') /\ UNCHANGED << call, ext, text >>
Print == /\ pc = "done" /\ out.ok
         /\ text' = Text(out.v) /\ pc' = "printed" /\ UNCHANGED << call, ext, ins, out >>
\* A refused call ends in "done", an accepted one in "printed".
Finished == pc = "printed" \/ (pc = "done" /\ ~out.ok)
Stop == Finished /\ UNCHANGED vars

Next == Submit \/ Entry \/ ChooseExtension \/ ChooseOpcode \/ TakeRd \/ TakeRs1 \/ TakeRs2 \/ TakeImm
        \/ AttachFormat \/ Print \/ Stop
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(***************************************************************************)
(* Helpers for the properties.                                             *)
(***************************************************************************)
Replied == pc = "done"
W == call.w
Rows == RowsOf(call.width)
Claimed == Claims(W, call.width, call.isa)
TheRow == Rows[CHOOSE k \in Claimed : TRUE]
Is32 == call.width = 32
Is16 == call.width = 16
Odd == Deviating(call.width, W, call.isa)
OkHere == Replied /\ out.ok
Other == IF call.isa = 32 THEN 64 ELSE 32
Flip(w, b) == IF b < 16 THEN << w[1], w[2] ^^ (2^b) >> ELSE << w[1] ^^ (2^(b - 16)), w[2] >>

\* No word belongs to two rows on one ISA, except the shadow-stack forms that the
\* listing places inside the zero-immediate hole of c.lui (already excluded by nz).
RowsDisjoint == Replied => Cardinality(Claimed) <= 1

\* The tree without the recorded deviations is the listing.
IdealTree == Replied => LET i == DecodeSide(call.width, W, call.isa, "ideal") IN
    /\ i.ok <=> Claimed # {}
    /\ i.ok => i.v.op = TheRow.id
    /\ (~Odd) => i = Decode(call.width, W, call.isa)

(***************************************************************************)
(* The properties.                                                         *)
(***************************************************************************)
C01 == Replied /\ Is32 /\ ~Odd => (out.ok <=> Claimed # {})
C02 == OkHere /\ Is32 => out.v.op = TheRow.id
C03 == OkHere /\ Is32 => LET m == Meaning(W, TheRow) IN
         out.v.rd = m.rd /\ out.v.rs1 = m.rs1 /\ out.v.rs2 = m.rs2
C04 == OkHere /\ Is32 => LET m == Meaning(W, TheRow) IN out.v.himm = m.himm /\ out.v.imm = m.imm
C05 == Replied /\ Is16 /\ ~Odd => (out.ok <=> Claimed # {}) /\ (out.ok => out.v.op = TheRow.id)
C06 == OkHere /\ Is16 /\ ~Odd => LET m == Meaning(W, TheRow) IN
         out.v.rd = m.rd /\ out.v.rs1 = m.rs1 /\ out.v.rs2 = m.rs2
C07 == OkHere /\ Is16 /\ ~Odd => LET m == Meaning(W, TheRow) IN out.v.himm = m.himm /\ out.v.imm = m.imm

\* XLEN.  Both: the words whose two readings may differ.
ShiftWord == \/ Is32 /\ Slice(W, 6, 0) = 19 /\ Slice(W, 14, 12) \in {1, 5}
             \/ Is16 /\ Slice(W, 1, 0) = 1 /\ Slice(W, 15, 13) = 4 /\ Slice(W, 11, 10) \in {0, 1}
             \/ Is16 /\ Slice(W, 1, 0) = 2 /\ Slice(W, 15, 13) = 0
JalAddiwWord == Is16 /\ Slice(W, 1, 0) = 1 /\ Slice(W, 15, 13) = 1
UpperCounterWord == Is32 /\ Slice(W, 6, 0) = 115 /\ Slice(W, 14, 12) = 2 /\ Slice(W, 19, 15) = 0
                    /\ Slice(W, 31, 20) \in {3200, 3201, 3202}
XlenDependent == ShiftWord \/ JalAddiwWord \/ UpperCounterWord
C08 == Replied =>
    LET r32 == Decode(call.width, W, 32)
        r64 == Decode(call.width, W, 64)
        only64 == Claims(W, call.width, 64) # {} /\ Claims(W, call.width, 32) = {} /\ ~XlenDependent
    IN /\ (r32 = Fail("OnlyRv64Inst")) <=> only64
       /\ r64 # Fail("OnlyRv64Inst")
       /\ ~only64 /\ ~XlenDependent => r32 = r64

\* Total: every opcode, on this word, with every parser, gives an answer of the right kind;
\* together with deadlock checking and the liveness property Terminates.
C09 == Replied => \A op \in {o \in Ops : WidthOf[o] = call.width} :
    /\ ParseRd(op, W) \in -1..31 /\ ParseRs1(op, W) \in -1..31 /\ ParseRs2(op, W) \in -1..4095
    /\ ParseImm(op, W, call.isa).v \in -1048576..1048575
Terminates == <>Finished

\* Which rows survive when only part of the encoding is looked at.
Agree(mask, r, w) == (w[1] & mask[1] & r.q.m[1]) = (r.q.v[1] & mask[1])
                     /\ (w[2] & mask[2] & r.q.m[2]) = (r.q.v[2] & mask[2])
M(S) == WordOf(S)
OpcMask == M(0..6)
F3Mask == M(0..6 \cup 12..14)
F7Mask == M(0..6 \cup 25..31)
F5Mask == M(0..6 \cup 27..31)
F37Mask == M(0..6 \cup 12..14 \cup 25..31)
C3Mask == M({0, 1, 13, 14, 15})
CFunctMask == M({0, 1, 5, 6, 10, 11, 12, 13, 14, 15})
Survives(mask) == \E k \in 1..Len(Rows) : call.isa \in Rows[k].isas /\ Agree(mask, Rows[k], W)
Survives64(mask) == \E k \in 1..Len(Rows) : Agree(mask, Rows[k], W)
SubPages == \/ Slice(W, 6, 0) = 15 /\ Slice(W, 14, 12) = 2
            \/ Slice(W, 6, 0) = 115 /\ Slice(W, 14, 12) = 4
C10 == Replied /\ ~out.ok /\ ~Odd =>
    LET e == out.e IN
    IF Is16
    THEN /\ e \in {"InvalidOpcode", "IllegalInstruction", "OnlyRv64Inst"}
         /\ W[2] = 0 => e = "IllegalInstruction"
         \* an illegal one turns into an instruction by changing operand bits only
         /\ e = "IllegalInstruction" =>
              \E k \in 1..Len(Rows) : Agree(C3Mask, Rows[k], W)
         /\ e = "InvalidOpcode" =>
              ~\E k \in 1..Len(Rows) : Agree(CFunctMask, Rows[k], W)
    ELSE /\ e \notin {"Not16BitInst", "Not32BitInst"}
         /\ (e = "InvalidOpcode") <=> (~Survives64(OpcMask) \/ SubPages)
         /\ e = "UnknownExtension" => Survives64(OpcMask) /\ ~Survives64(F37Mask)
         /\ e = "InvalidFunct3" => Survives64(OpcMask) /\ ~Survives64(F37Mask)
         /\ e \in {"InvalidFunct7", "InvalidFunct6", "InvalidFunct5"} => Survives64(F3Mask)
         /\ e = "InvalidFunct6" => call.isa = 64 /\ ShiftWord
         /\ e = "IllegalInstruction" => Survives64(F37Mask)
         /\ e = "OnlyRv64Inst" => call.isa = 32

C11 == OkHere => (out.v.compressed <=> Is16) /\ (Is32 <=> IsLong(W))

\* The same number through the integer conversion.
C12 == Replied =>
    LET q == << 0, 0, W[1], W[2] >> IN
    /\ Is32 /\ IsLong(W) => Convert(q) = Decode(32, W, 64)
    /\ Is16 /\ ~IsLong(W) => Convert(q) = Decode(16, W, 64)
    /\ Is32 /\ ~IsLong(W) /\ W[1] # 0 => ~Convert(q).ok
    /\ \A h \in {1, 32768, W[2]} \ {0} : ~Convert(<< 0, h, W[1], W[2] >>).ok /\ ~Convert(<< h, 0, W[1], W[2] >>).ok

\* Whole = composition of the parts; any opcode of this width reads this word as its row says.
ConstOr(r, v, w) == IF r.k = "const" THEN v \in {r.add, Slice(w, r.e, r.s)} ELSE v = RegVal(w, r)
C13 == Replied =>
    /\ out = Decode(call.width, W, call.isa)
    /\ \A op \in {o \in CrateOps : WidthOf[o] = call.width} :
         LET r == ParseTable[call.isa][op] IN
         /\ ConstOr(r.rd, ParseRd(op, W), W) /\ ConstOr(r.rs1, ParseRs1(op, W), W) /\ ConstOr(r.rs2, ParseRs2(op, W), W)
         /\ ParseImm(op, W, call.isa) = (IF r.himm THEN Has(ImmVal(W, r)) ELSE HasNot)

ShapeOfRow(r) == << r.rd.k # "none", r.rs1.k # "none", r.rs2.k # "none", r.himm >>
Shape(i) == << i.rd # None, i.rs1 # None, i.rs2 # None, i.himm >>
C14 == OkHere =>
    /\ out.v.fmt = FormatOf[out.v.op]
    /\ Shape(out.v) = ShapeOfRow(RowTable[64][out.v.op])
    /\ Shape(out.v) = ShapeOfRow(RowTable[32][out.v.op])
    /\ out.v.rd \in -1..31 /\ out.v.rs1 \in -1..31
    /\ out.v.rs2 \in (IF ExtOf[out.v.op] = "Zicsr" THEN 0..4095 ELSE -1..31)
    /\ Displayable(out.v)
C15 == pc = "printed" => text # ""
C16 == pc = "printed" =>
    LET m == Mnemonics[out.v.op] IN
    /\ m = NameMnemonic(out.v.op)
    /\ SubSeq(text, 1, Len(m)) = m
    /\ \/ text = m
       \/ SubSeq(text, Len(m) + 1, Len(m) + 1) = " " /\ Len(text) > Len(m) + 1

\* Lossless: the word comes back from the decoded instruction.
C18 == OkHere /\ ~Odd => Encode(TheRow, out.v) = Clear(W, TheRow.ignored)

\* Changing one bit of the word: same opcode => texts differ iff displayed operands differ.
C19 == pc = "printed" => \A b \in 0..(call.width - 1) :
    LET r == Decode(call.width, Flip(W, b), call.isa) IN
    r.ok /\ r.v.op = out.v.op =>
        /\ (Text(r.v) = text) <=> (Displayed(r.v) = Displayed(out.v))
        /\ FormatOf[out.v.op] # "NoOperand" /\ out.v.op \notin Lrs \cup Swaps
             /\ ~(ExtOf[out.v.op] = "A" /\ b \in {25, 26}) /\ r.v # out.v => Text(r.v) # text

\* A compressed instruction and the 32-bit instruction it stands for.
C20 == OkHere /\ Is16 /\ ~Odd =>
    LET long == ExpandWord(out.v, call.isa) IN
    /\ IsLong(long) /\ Cardinality(Claims(long, 32, call.isa)) = 1
    /\ Decode(32, long, call.isa) = Ok(Expand(out.v))

\* Equality of instructions is equality of all seven fields; with C18 two words of one width
\* that differ outside the ignored bits give unequal instructions, and a word equals itself.
C21 == OkHere => SameInstruction(out.v, out.v) /\ \A b \in 0..(call.width - 1) :
    LET r == Decode(call.width, Flip(W, b), call.isa) IN
    r.ok => /\ SameInstruction(out.v, r.v) <=> SameInstruction(r.v, out.v)
            /\ SameInstruction(out.v, r.v) <=> out.v = r.v
            /\ SameInstruction(out.v, r.v) => b \in TheRow.ignored \/ Odd

\* Instructions built by hand: the text depends on the opcode and the displayed operands only.
OddImms == {-2147483647, -1048577, -1, 0, 1, 4096, 2147483647}
C22 == pc = "printed" =>
    /\ \A r \in {None, 0, 31} :
         /\ Shown(out.v.op, "rd") \/ Text([out.v EXCEPT !.rd = r]) = text
         /\ Shown(out.v.op, "rs1") \/ Text([out.v EXCEPT !.rs1 = r]) = text
         /\ Shown(out.v.op, "rs2") \/ Text([out.v EXCEPT !.rs2 = r]) = text
    /\ Text([out.v EXCEPT !.compressed = ~out.v.compressed]) = text
    /\ \A m \in OddImms :
         LET i == [out.v EXCEPT !.himm = TRUE, !.imm = m] IN
         (Text(i) = text) <=> (Shown(out.v.op, "imm") => m = out.v.imm)

\* Debug text tells instructions apart, also where the printed text does not.
C23 == OkHere =>
    LET d == DebugText(out.v) IN
    /\ Unread(d) = out.v
    /\ \A b \in 0..(call.width - 1) :
         LET r == Decode(call.width, Flip(W, b), call.isa) IN
         r.ok => ((DebugText(r.v) = d) <=> SameInstruction(r.v, out.v))

\* Operands stay inside the documented ranges, also of the words the crate should refuse but one.
C24 == OkHere /\ ~Odd => InRanges(out.v, call.isa)

\* The text, read as assembly, is the word.
C26 == pc = "printed" /\ ~Odd => StandsFor(text, call.width, W, call.isa)

(***************************************************************************)
(* Facts about the listing itself (no state involved).                     *)
(***************************************************************************)
MnemonicsUnique == \A a, b \in Ops : Mnemonics[a] = Mnemonics[b] => a = b
\* Every bit of every encoding is fixed, an operand, or explicitly ignored.
RegSpan(r) == IF r.k = "field" THEN r.s..r.e ELSE {}
BitsCovered == \A k \in 1..Len(AllRows) :
    LET r == AllRows[k] IN
    /\ BitsOf(r.q.m) \cup RegSpan(r.rd) \cup RegSpan(r.rs1) \cup RegSpan(r.rs2)
         \cup {r.pairs[j][1] : j \in 1..Len(r.pairs)} \cup r.ignored = 0..(r.width - 1)
    /\ Len(r.pairs) = r.nimm
    /\ r.ignored # {} => r.id \in Swaps \cup AbsentOps
\* A row's immediate targets are distinct, and the sign width is one above the top target.
ImmSound == \A k \in 1..Len(AllRows) :
    LET r == AllRows[k]
        T == {r.pairs[j][2] : j \in 1..Len(r.pairs)}
    IN Cardinality(T) = Len(r.pairs) /\ (r.sg > 0 => Max(T) = r.sg - 1)
\* The multi-line debug text can be read back too, and is the one-line text laid out.
SomeInstructions(op) ==
    { [Blank EXCEPT !.op = op, !.fmt = FormatOf[op], !.rd = 31, !.rs1 = None, !.rs2 = 4095, !.himm = TRUE, !.imm = -2048],
      [Blank EXCEPT !.op = op, !.fmt = FormatOf[op], !.rd = None, !.rs1 = 7, !.rs2 = None, !.himm = FALSE, !.imm = 0, !.compressed = TRUE] }
PrettySound == \A op \in CrateOps : \A i \in SomeInstructions(op) :
    LET d == DebugText(i)
        p == PrettyText(i) IN
    Unread(d) = i /\ Unread(p) = i /\ Flat(p) = d /\ Flat(d) = d
ListingFacts == MnemonicsUnique /\ BitsCovered /\ ImmSound /\ RulesSound /\ AssemblerSound /\ PrettySound
===========================================================================
