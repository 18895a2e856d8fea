---------------------------- MODULE TraceWriter ----------------------------
(***************************************************************************)
(* Recorded printing into writers with limited room against Writer         *)
(* (property C25): "open" gives the complete text and the room, "piece" is *)
(* one call of write_str and the writer's answer, "close" the result of    *)
(* printing and what the writer has in the end.                            *)
(***************************************************************************)
EXTENDS Writer, Json, IOUtils, TLC
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE line
IsEvent(e) == line <= Len(Log) /\ Log[line].ev = e /\ line' = line + 1
TPInit == Open("", 0) /\ line = 1
TOpen == /\ IsEvent("open")
         /\ line > 1 => verdict # "busy"
         /\ whole' = Log[line].text /\ rest' = Log[line].text /\ room' = Log[line].room
         /\ got' = "" /\ refused' = FALSE /\ late' = 0 /\ verdict' = "busy"
\* An empty piece is no piece, also when the writer is full.
TEmpty == IsEvent("piece") /\ Log[line].s = "" /\ verdict = "busy" /\ UNCHANGED xvars
TPiece == /\ IsEvent("piece")
          /\ Log[line].s # "" /\ Len(Log[line].s) <= Len(rest)
          /\ Head2(rest, Len(Log[line].s)) = Log[line].s
          /\ Piece(Len(Log[line].s))
          /\ Log[line].ok = ~refused'
TClose == /\ IsEvent("close")
          /\ Close
          /\ Log[line].ok = (verdict' = "ok")
          /\ Log[line].got = got
TPNext == TOpen \/ TEmpty \/ TPiece \/ TClose
TPSpec == TPInit /\ [][TPNext]_<< xvars, line >>
View == line
NoTexts == {""}
NoRooms == {0}
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Log)
===========================================================================
