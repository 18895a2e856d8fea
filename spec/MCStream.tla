------------------------------ MODULE MCStream ------------------------------
EXTENDS Stream, TLC, IOUtils
\* Halfwords chosen so that every one may be read as first half, second half or alone:
\* 0, c.nop, c.ebreak, reserved c.jr, low/high halves of addi, ld, jal, an illegal long word.
Pool == {0, 1, 36866, 32770, 19, 12291, 65535, 57455}
MCMem == UNION {[1..n -> Pool] : n \in 0..(IF "STREAM_LEN" \in DOMAIN IOEnv /\ IOEnv.STREAM_LEN = "5" THEN 5 ELSE 4)}
MCIsas == {32, 64}
===========================================================================
