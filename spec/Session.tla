------------------------------ MODULE Session ------------------------------
(***************************************************************************)
(* A client session with the crate: threads issue public API calls, every  *)
(* call is invoked and later returns.  The crate keeps no state of its own *)
(* - the reply is a function of the request - and that is property C17.    *)
(*                                                                         *)
(* Cache lets the model explore crates with hidden state: "none" is the    *)
(* crate, "full" a memo keyed by the whole request (allowed: a client      *)
(* cannot tell).  The others are not allowed, and TLC must find that:      *)
(*   "word"    a one-entry memo keyed by the word without the ISA          *)
(*   "latch"   after a refusal every word is decoded for Rv32              *)
(*   "count"   every third call is decoded for Rv32                        *)
(*   "sticky"  the operand parsers use the ISA of the last decode          *)
(*   "thread"  thread 2 decodes for Rv32                                   *)
(*                                                                         *)
(* Requests: k is the entry point; width, w (halves) the word; isa; op the *)
(* opcode passed to the operand parsers; q the integer of try_from; ins    *)
(* the instruction that is printed; ins and other those that are compared. *)
(* Unused fields hold defaults, so all requests have one shape.            *)
(***************************************************************************)
EXTENDS Assembler

CONSTANTS Threads, Requests, Cache,
          Remember   \* keep the client-side record (trace validation does without)

VARIABLES pending,   \* pending[t]: the request thread t is waiting for, or NoRequest
          reply,     \* reply[t]: what thread t's last call returned
          memo,      \* the crate's shared memo (empty for Cache = "none")
          seen       \* client-side record of <<request, reply>> pairs
svars == << pending, reply, memo, seen >>

Req0 == [k |-> "none", width |-> 32, w |-> << 0, 0 >>, isa |-> 64, op |-> "", q |-> << 0, 0, 0, 0 >>, ins |-> Blank, other |-> Blank]
NoRequest == Req0
DecodeReq(width, w, isa) == [Req0 EXCEPT !.k = "decode", !.width = width, !.w = w, !.isa = isa]
OpcodeReq(width, w, isa) == [Req0 EXCEPT !.k = "opcode", !.width = width, !.w = w, !.isa = isa]
PartReq(k, width, w, isa, op) == [Req0 EXCEPT !.k = k, !.width = width, !.w = w, !.isa = isa, !.op = op]
ConvertReq(q) == [Req0 EXCEPT !.k = "convert", !.q = q]
PrintReq(ins) == [Req0 EXCEPT !.k = "print", !.ins = ins]
EqualReq(k, i, j) == [Req0 EXCEPT !.k = k, !.ins = i, !.other = j]
DebugReq(ins) == [Req0 EXCEPT !.k = "debug", !.ins = ins]
PrettyReq(ins) == [Req0 EXCEPT !.k = "pretty", !.ins = ins]
DebugOpReq(op) == [Req0 EXCEPT !.k = "debugop", !.op = op]
NameReq(op) == [Req0 EXCEPT !.k = "name", !.op = op]
FormatReq(op) == [Req0 EXCEPT !.k = "format", !.op = op]

\* All replies have one shape too: v for instructions, n/has for operands, s for text and names.
Rep0 == [ok |-> TRUE, e |-> "", v |-> Blank, has |-> FALSE, n |-> 0, s |-> ""]
RepErr(e) == [Rep0 EXCEPT !.ok = FALSE, !.e = e]
RepIns(d) == IF d.ok THEN [Rep0 EXCEPT !.v = d.v] ELSE RepErr(d.e)
RepReg(v) == IF v = None THEN Rep0 ELSE [Rep0 EXCEPT !.has = TRUE, !.n = v]
RepImm(im) == [Rep0 EXCEPT !.has = im.has, !.n = im.v]
RepStr(s) == [Rep0 EXCEPT !.s = s]

Part(r, rep) == IF WidthOf[r.op] # r.width THEN RepErr(WrongWidth(r.width)) ELSE rep
Answer(r, side) ==
    CASE r.k = "decode" -> RepIns(DecodeSide(r.width, r.w, r.isa, side))
      [] r.k = "opcode" -> LET leaf == ParseOpcode(r.width, r.w, r.isa, side) IN
                           IF leaf.k = "err" THEN RepErr(leaf.id) ELSE RepStr(leaf.id)
      [] r.k = "rd" -> Part(r, RepReg(ParseRd(r.op, r.w)))
      [] r.k = "rs1" -> Part(r, RepReg(ParseRs1(r.op, r.w)))
      [] r.k = "rs2" -> Part(r, RepReg(ParseRs2(r.op, r.w)))
      [] r.k = "imm" -> Part(r, RepImm(ParseImm(r.op, r.w, r.isa)))
      [] r.k = "convert" -> RepIns(Convert(r.q))
      [] r.k = "print" -> RepStr(IF r.ins.op \in Ops THEN Text(r.ins) ELSE "?")
      [] r.k = "eqins" -> [Rep0 EXCEPT !.has = SameInstruction(r.ins, r.other)]
      [] r.k = "eqop" -> [Rep0 EXCEPT !.has = (r.ins.op = r.other.op)]
      [] r.k = "eqfmt" -> [Rep0 EXCEPT !.has = (r.ins.fmt = r.other.fmt)]
      [] r.k = "debug" -> RepStr(IF r.ins.op \in Ops THEN DebugText(r.ins) ELSE "?")
      [] r.k = "pretty" -> RepStr(IF r.ins.op \in Ops THEN PrettyText(r.ins) ELSE "?")
      [] r.k = "debugop" -> RepStr(DebugOp(r.op))
      [] r.k = "name" -> RepStr(Mnemonics[r.op])
      [] r.k = "format" -> RepStr(FormatOf[r.op])

Key(r) == IF Cache = "word" THEN [r EXCEPT !.isa = 64] ELSE r
On32(r) == Answer([r EXCEPT !.isa = 32], "actual")
Computed(t, r) ==
    CASE Cache \in {"full", "word"} /\ Key(r) \in DOMAIN memo -> memo[Key(r)]
      [] Cache = "latch" /\ memo = << "refused" >> -> On32(r)
      [] Cache = "count" /\ Len(memo) = 2 -> On32(r)
      [] Cache = "sticky" /\ r.k = "imm" /\ memo = << 32 >> -> On32(r)
      [] Cache = "thread" /\ t = 2 -> On32(r)
      [] OTHER -> Answer(r, "actual")
Updated(r, a) ==
    CASE Cache \in {"none", "thread"} -> memo
      [] Cache = "word" -> [x \in {Key(r)} |-> a]
      [] Cache = "full" -> [x \in DOMAIN memo \cup {Key(r)} |-> IF x = Key(r) THEN a ELSE memo[x]]
      [] Cache = "latch" -> IF a.ok THEN memo ELSE << "refused" >>
      [] Cache = "count" -> IF Len(memo) = 2 THEN << >> ELSE Append(memo, 0)
      [] Cache = "sticky" -> IF r.k = "decode" THEN << r.isa >> ELSE memo

SInit == /\ pending = [t \in Threads |-> NoRequest]
         /\ reply = [t \in Threads |-> Rep0]
         /\ memo = << >>
         /\ seen = {}

Invoke(t, r) == /\ pending[t] = NoRequest
                /\ pending' = [pending EXCEPT ![t] = r]
                /\ UNCHANGED << reply, memo, seen >>
Return(t) == /\ pending[t] # NoRequest
             /\ LET r == pending[t]
                    a == Computed(t, r) IN
                /\ reply' = [reply EXCEPT ![t] = a]
                /\ memo' = Updated(r, a)
                /\ seen' = IF Remember THEN seen \cup {<< r, a >>} ELSE seen
             /\ pending' = [pending EXCEPT ![t] = NoRequest]
SNext == \E t \in Threads : (\E r \in Requests : Invoke(t, r)) \/ Return(t)
SSpec == SInit /\ [][SNext]_svars /\ \A t \in Threads : WF_svars(Return(t))

\* C17: equal requests get equal replies, whatever happened in between and on whichever thread.
Pure == \A x, y \in seen : x[1] = y[1] => x[2] = y[2]
\* and the replies are the specified ones.
Conforms == \A x \in seen : x[2] = Answer(x[1], "actual")
\* C09: every call returns.
Returns == \A t \in Threads : (pending[t] # NoRequest) ~> (pending[t] = NoRequest)
===========================================================================
