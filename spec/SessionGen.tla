----------------------------- MODULE SessionGen -----------------------------
(***************************************************************************)
(* Behaviours of Session for replay into the crate: TLC simulates it and   *)
(* every behaviour of Depth events is written to a file, as the list of    *)
(* invocations (request n of REQUESTS on thread t) and returns.            *)
(***************************************************************************)
EXTENDS MCSession, Json, CSV, IOUtils, SequencesExt

CONSTANT Depth
VARIABLE hist
gvars == << pending, reply, memo, seen, hist >>

\* Requests of every kind: the words of MCSession and of a few other rows, refusals, conversions,
\* operand parsers with the right and with foreign opcodes, texts, comparisons.
GenWords == SomeWords \cup
    { << 32, << 0, 0 >> >>, << 32, << 65535, 65535 >> >>, << 32, << 0, 115 >> >>, << 32, << 49152, 8307 >> >>,
      << 32, << 4096, 8239 >> >>, << 32, << 65535, 55 >> >>, << 32, << 65168, 2531 >> >>,
      << 16, << 0, 0 >> >>, << 16, << 0, 65535 >> >>, << 16, << 0, 36866 >> >>, << 16, << 0, 24705 >> >>, << 16, << 0, 25233 >> >> }
Instr(x) == LET d == DecodeSide(x[1], x[2], 64, "actual") IN IF d.ok THEN {d.v} ELSE {}
GenIns == UNION {Instr(x) : x \in GenWords}
GenRequests ==
    {DecodeReq(x[1], x[2], isa) : x \in GenWords, isa \in {32, 64}}
    \cup {OpcodeReq(x[1], x[2], isa) : x \in GenWords, isa \in {32, 64}}
    \cup {PartReq(k, 32, << 512, 4115 >>, isa, op) : k \in {"rd", "rs1", "rs2", "imm"}, isa \in {32, 64},
                                                     op \in {"BaseI.SLLI", "BaseI.BEQ", "Zicsr.CSRRW", "C.ADDI"}}
    \cup {PartReq(k, 16, << 0, 36866 >>, 64, op) : k \in {"rd", "rs1", "rs2", "imm"}, op \in {"C.ADD", "C.LWSP", "BaseI.ADD"}}
    \cup {ConvertReq(<< 0, 0, x[2][1], x[2][2] >>) : x \in GenWords} \cup {ConvertReq(<< 0, 1, 0, 3 >>), ConvertReq(<< 1, 0, 0, 1 >>)}
    \cup {PrintReq(i) : i \in GenIns} \cup {DebugReq(i) : i \in GenIns} \cup {PrettyReq(i) : i \in GenIns}
    \cup {NameReq(i.op) : i \in GenIns} \cup {DebugOpReq(i.op) : i \in GenIns} \cup {FormatReq(i.op) : i \in GenIns}
    \cup {EqualReq("eqins", i, j) : i, j \in GenIns}
RequestSeq == SetToSeq(GenRequests)

GInit == SInit /\ hist = << >>
GNext == /\ Len(hist) < Depth
         /\ \E t \in Threads :
              \/ /\ pending[t] = NoRequest
                 /\ \E n \in {RandomElement(1..Len(RequestSeq))} :
                      /\ Invoke(t, RequestSeq[n])
                      /\ hist' = Append(hist, [t |-> t, ev |-> "inv", n |-> n])
              \/ /\ Return(t)
                 /\ hist' = Append(hist, [t |-> t, ev |-> "ret", n |-> 0])
GSpec == GInit /\ [][GNext]_gvars

Emit == Len(hist) = Depth => CSVWrite("%1$s", << ToJson(hist) >>, IOEnv.BEHAVIOURS)
WriteRequests == ndJsonSerialize(IOEnv.REQUESTS, RequestSeq)
ASSUME WriteRequests
===========================================================================
