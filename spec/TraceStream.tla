---------------------------- MODULE TraceStream ----------------------------
(***************************************************************************)
(* Recorded walks over halfword streams against Stream (property C11).     *)
(* The recording walker asks the crate for the length of each instruction; *)
(* dig is a digest of the instruction it got, alone of the same position   *)
(* decoded on its own.                                                     *)
(***************************************************************************)
EXTENDS Stream, Json, IOUtils, TLC
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE line
IsEvent(e) == line <= Len(Log) /\ Log[line].ev = e /\ line' = line + 1
TWInit == mem = << >> /\ target = 64 /\ pos = 1 /\ steps = << >> /\ halt = TRUE /\ line = 1
TStart == /\ IsEvent("start") /\ halt
          /\ mem' = Log[line].mem /\ target' = Log[line].isa /\ pos' = 1 /\ steps' = << >> /\ halt' = FALSE
TStep == /\ IsEvent("step")
         /\ Log[line].at = pos
         /\ Take16 \/ Take32
         /\ Log[line].len = pos' - pos
         /\ Log[line].ok => (Log[line].compressed <=> Log[line].len = 1)
         /\ Log[line].dig = Log[line].alone
TEnd == IsEvent("end") /\ EndWalk
TWNext == TStart \/ TStep \/ TEnd
TWSpec == TWInit /\ [][TWNext]_<< wvars, line >>
View == line
NoMem == {<< >>}
AllIsas == {32, 64}
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Log)
===========================================================================
