------------------------------- MODULE Writer -------------------------------
(***************************************************************************)
(* Printing into a writer with limited room.  The printer hands its text   *)
(* to the writer in pieces of its own choosing.  The writer takes what     *)
(* fits; a piece that does not fit entirely is answered with an error, and *)
(* so is every later one.  The printer stops at the first error and hands  *)
(* it to its caller.  The outcome does not depend on how the text was cut. *)
(*                                                                         *)
(* Care lets the model explore printers that get it wrong: "full" is the   *)
(* crate.  TLC must find that the others break the properties:             *)
(*   "deaf"     never looks at the writer's answer                         *)
(*   "silent"   stops, but reports success                                 *)
(*   "late"     goes on after an error and reports it at the end           *)
(*   "eager"    reports an error when the text just fits                   *)
(***************************************************************************)
EXTENDS Integers, Sequences

CONSTANTS Texts, Rooms, Care

VARIABLES whole,    \* the complete text
          rest,     \* what the printer has not handed over yet
          room,     \* how many characters the writer takes in all
          got,      \* what the writer has
          refused,  \* the writer has answered with an error
          late,     \* pieces handed over after that
          verdict   \* "busy", then "ok" or "error"
xvars == << whole, rest, room, got, refused, late, verdict >>

Smaller(x, y) == IF x < y THEN x ELSE y
Head2(str, n) == SubSeq(str, 1, n)
Tail2(str, n) == SubSeq(str, n + 1, Len(str))

Open(str, size) == /\ whole = str /\ rest = str /\ room = size
                   /\ got = "" /\ refused = FALSE /\ late = 0 /\ verdict = "busy"
PInit == \E str \in Texts, size \in Rooms : Open(str, size)

Fits(n) == ~refused /\ Len(got) + n <= room
\* The next n characters are handed over.
Piece(n) ==
    /\ verdict = "busy" /\ n <= Len(rest)
    /\ refused => Care \in {"deaf", "late"}
    /\ rest' = Tail2(rest, n)
    /\ got' = got \o Head2(rest, Smaller(n, room - Len(got)))
    /\ refused' = ~Fits(n)
    /\ late' = IF refused THEN late + 1 ELSE late
    /\ UNCHANGED << whole, room, verdict >>
\* The printer returns.
Close ==
    /\ verdict = "busy"
    /\ rest = "" \/ (refused /\ Care \in {"full", "silent", "eager"})
    /\ verdict' = CASE Care \in {"full", "late"} -> IF refused THEN "error" ELSE "ok"
                    [] Care \in {"deaf", "silent"} -> "ok"
                    [] Care = "eager" -> IF refused \/ Len(whole) = room THEN "error" ELSE "ok"
    /\ UNCHANGED << whole, rest, room, got, refused, late >>
PNext == Close \/ \E n \in 1..Len(rest) : Piece(n)
PSpec == PInit /\ [][PNext]_xvars /\ WF_xvars(PNext)

\* C25.
OnlyPrefix == got = Head2(whole, Smaller(Len(got), Len(whole)))
Complete == verdict # "busy" => got = Head2(whole, Smaller(room, Len(whole)))
Reported == verdict # "busy" => (verdict = "ok" <=> Len(whole) <= room)
NothingLate == late = 0
C25 == OnlyPrefix /\ Complete /\ Reported /\ NothingLate
Closes == <>(verdict # "busy")
===========================================================================
