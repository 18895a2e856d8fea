----------------------------- MODULE Partition -----------------------------
(***************************************************************************)
(* Tree and listing compared on ALL words, symbolically.                   *)
(*                                                                         *)
(* Starting from the set of all words of a width, a behaviour fixes one    *)
(* bit after the other until the cube is decided: on both ISAs the tree    *)
(* reaches a leaf without looking at a free bit, and every pattern that    *)
(* occurs in a property matches all of the cube or none.  The decided      *)
(* cubes partition the words, so what the invariants say of them they say  *)
(* of each of the 2^32 + 2^16 words; nothing is sampled.                   *)
(*                                                                         *)
(* Operands are sums over single bits of the word plus a sign.  On a cube  *)
(* they are determined by the words with no and with one free bit set; the *)
(* corners (these and the one with all bits set) are compared.             *)
(***************************************************************************)
EXTENDS Cubes

CONSTANT Widths
VARIABLES cube, decided

\* Patterns of rows seen through a mask (which rows survive so far - C10).
Seen(r, S) == [m |-> WordOf(BitsOf(r.q.m) \cap S), v |-> WordOf(BitsOf(r.q.v) \cap S)]
Through(width, S) == LET rs == RowsOf(width) IN {Seen(rs[k], S) : k \in 1..Len(rs)}
OpcBits == 0..6
F3Bits == 0..6 \cup 12..14
F37Bits == F3Bits \cup 25..31
C3Bits == {0, 1, 13, 14, 15}
CFunctBits == C3Bits \cup {5, 6, 10, 11, 12}
ByOpc == Through(32, OpcBits)
ByF3 == Through(32, F3Bits)
ByF37 == Through(32, F37Bits)
ByC3 == Through(16, C3Bits)
ByCFunct == Through(16, CFunctBits)
Survive(c, P) == \E q \in P : Inside(c, q)

\* The words whose two readings may differ although both ISAs know them (C08).
ShiftPats(width) == IF width = 32
    THEN {Pat("------- ----- ----- 001 ----- 0010011"), Pat("------- ----- ----- 101 ----- 0010011")}
    ELSE {Pat("100 - 00 --- ----- 01"), Pat("100 - 01 --- ----- 01"), Pat("000 - ----- ----- 10")}
XlenPats(width) == ShiftPats(width) \cup (IF width = 32
    THEN {Pat("1100100 00000 00000 010 ----- 1110011"), Pat("1100100 00001 00000 010 ----- 1110011"),
          Pat("1100100 00010 00000 010 ----- 1110011")}
    ELSE {Pat("001 - ----- ----- 01")})
\* Sub-pages that a whole opcode/funct3 pair is handed to (their refusals are invalid opcodes).
SubPagePats == {Pat("------- ----- ----- 010 ----- 0001111"), Pat("------- ----- ----- 100 ----- 1110011")}
Pats == [width \in {16, 32} |-> XlenPats(width) \cup (IF width = 32 THEN ByOpc \cup ByF3 \cup ByF37 \cup SubPagePats
                                                              ELSE ByC3 \cup ByCFunct)]
Needs(c) == LET a == Asks(c) IN IF a # {} THEN a ELSE UNION {Loose(c, q) : q \in Pats[c.width]}

Init == cube \in {Everything(width) : width \in Widths} /\ decided = FALSE
Split == ~decided /\ LET a == Needs(cube) IN a # {} /\ \E x \in {0, 1} : cube' = Fix(cube, Max(a), x) /\ UNCHANGED decided
Close == ~decided /\ Needs(cube) = {} /\ decided' = TRUE /\ UNCHANGED cube
Next == Split \/ Close
Spec == Init /\ [][Next]_<< cube, decided >>

(***************************************************************************)
(* What holds in every decided cube.                                       *)
(***************************************************************************)
Isas == {32, 64}
Mine(isa) == RowsIn(cube, isa)
RowAt(k) == RowsOf(cube.width)[k]
Zero16 == cube.width = 16 /\ Free(cube) = {} /\ cube.v[2] = 0
\* The reply's opcode or error; decode looks for the all-zero 16-bit word itself.
Leaf(isa, side) == IF Zero16 THEN Ill ELSE LeafOf(cube, isa, side)
Recorded(isa) == Leaf(isa, "ideal") # Leaf(isa, "actual")

OneRow == decided => \A isa \in Isas : Cardinality(Mine(isa)) <= 1
\* C01, C02, C05: accepted exactly where a row claims, and as that row.
TreeIsListing == decided => \A isa \in Isas :
    LET leaf == Leaf(isa, "ideal") IN
    /\ leaf.k = "op" <=> Mine(isa) # {}
    /\ \A k \in Mine(isa) : leaf.id = RowAt(k).id
\* Only the recorded findings depart from it.
OnlyRecorded == decided => \A isa \in Isas : Recorded(isa) =>
    \/ cube.width = 32 /\ Inside(cube, Pat("------- ----- ----- 001 ----- 0001111"))
    \/ cube.width = 16 /\ Inside(cube, Pat("011 0 ----- 00000 01"))
\* C03, C04, C06, C07 and C18.
OperandsAreFields == decided => \A isa \in Isas : \A k \in Mine(isa) : RowAt(k).id \in CrateOps =>
    \A w \in Corners(cube) :
       LET i == Decoded(RowAt(k).id, cube.width, w, isa) IN
       /\ i = Meaning(w, RowAt(k))
       /\ Encode(RowAt(k), i) = Clear(w, RowAt(k).ignored)
\* C08.
Xlen == \E q \in XlenPats(cube.width) : Inside(cube, q)
XlenDecides == decided =>
    LET l32 == Leaf(32, "actual")
        l64 == Leaf(64, "actual")
        only64 == Mine(64) # {} /\ Mine(32) = {} /\ ~Xlen
    IN /\ l32 = Err("OnlyRv64Inst") <=> only64
       /\ l64 # Err("OnlyRv64Inst")
       /\ ~only64 /\ ~Xlen => l32 = l64
\* C10.
ErrorsExplain == decided => \A isa \in Isas :
    LET leaf == Leaf(isa, "actual")
        e == leaf.id
        opc == Survive(cube, ByOpc)
        f3 == Survive(cube, ByF3)
        f37 == Survive(cube, ByF37)
        shift == \E q \in ShiftPats(cube.width) : Inside(cube, q)
        sub == \E q \in SubPagePats : Inside(cube, q)
    IN leaf.k = "err" /\ ~Recorded(isa) =>
       IF cube.width = 16
       THEN /\ e \in {"InvalidOpcode", "IllegalInstruction", "OnlyRv64Inst"}
            /\ Zero16 => e = "IllegalInstruction"
            /\ e = "IllegalInstruction" => Survive(cube, ByC3)
            /\ e = "InvalidOpcode" => ~Survive(cube, ByCFunct)
       ELSE /\ e \notin {"Not16BitInst", "Not32BitInst"}
            /\ e = "InvalidOpcode" <=> ~opc \/ sub
            /\ e = "UnknownExtension" => opc /\ ~f37
            /\ e = "InvalidFunct3" => opc /\ ~f37
            /\ e \in {"InvalidFunct7", "InvalidFunct6", "InvalidFunct5"} => f3
            /\ e = "InvalidFunct6" => isa = 64 /\ shift
            /\ e = "IllegalInstruction" => f37
            /\ e = "OnlyRv64Inst" => isa = 32
\* C11.
LengthBits == decided => \A isa \in Isas : Leaf(isa, "actual").k = "op" =>
    Known(cube, 0) /\ Known(cube, 1) /\ (IsLong(cube.v) <=> cube.width = 32)
===========================================================================
