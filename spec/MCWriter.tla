------------------------------ MODULE MCWriter ------------------------------
(* Texts short enough to be cut in every possible way.                     *)
EXTENDS Writer, TLC
MCTexts == {"wfi", "c.nop", "fence 0", "addi a0, a1, -1"}
MCRooms == 0..16
===========================================================================
