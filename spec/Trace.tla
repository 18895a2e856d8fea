------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* Is a recorded run of the crate a behaviour of Session, as far as        *)
(* property PROPERTY is concerned?  One line per event: "inv" binds a      *)
(* request to Session!Invoke, "ret" lets Session!Return compute the        *)
(* specified answer and judges the logged reply against it.  refs are line *)
(* numbers of earlier returns the judgement refers to.                     *)
(***************************************************************************)
EXTENDS Judge, Json, IOUtils, TLC

Log == ndJsonDeserialize(IOEnv.TRACE)
Property == IOEnv.PROPERTY
TraceThreads == 0..7

VARIABLE line, invAt
tvars == << pending, reply, memo, seen, line, invAt >>

\* invAt[t]: the line of thread t's latest invocation.
TInit == SInit /\ line = 1 /\ invAt = [t \in TraceThreads |-> 0]
IsEvent(e) == line <= Len(Log) /\ Log[line].ev = e /\ line' = line + 1
TInvoke == /\ IsEvent("inv")
           /\ \E t \in {Log[line].t}, r \in {Log[line].req} : Invoke(t, r) /\ invAt' = [invAt EXCEPT ![t] = line]
\* Every return names its invocation; it was checked when that return was accepted.
Refs(x) == [k \in 1..Len(x.refs) |-> LET y == Log[x.refs[k]] IN [req |-> Log[y.inv].req, rep |-> y.rep]]
TReturn == /\ IsEvent("ret")
           /\ \E x \in {Log[line]}, t \in {Log[line].t} :
                /\ x.inv = invAt[t]
                /\ \A k \in 1..Len(x.refs) : x.refs[k] < line
                /\ Return(t)
                /\ \E r \in {pending[t]}, a \in {reply'[t]}, refs \in {Refs(x)} : Judge(Property, r, a, x.rep, refs) = TRUE
           /\ UNCHANGED invAt
TNext == TInvoke \/ TReturn
TSpec == TInit /\ [][TNext]_tvars

View == line
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Log)
===========================================================================
