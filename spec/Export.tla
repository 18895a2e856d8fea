------------------------------- MODULE Export -------------------------------
(***************************************************************************)
(* Writes the checked definitions as data for the conformance harness: the *)
(* decision trees, the listing, templates, names - and vectors, complete   *)
(* calls with the replies TLC itself computed, which the harness uses both *)
(* to cross-check its reading of the tables and to drive the crate.        *)
(***************************************************************************)
EXTENDS MCPipeline, Json, SequencesExt

RowJson(r) == [ id |-> r.id, isas |-> r.isas, width |-> r.width, m |-> r.q.m, v |-> r.q.v,
                rd |-> r.rd, rs1 |-> r.rs1, rs2 |-> r.rs2, himm |-> r.himm, pairs |-> r.pairs, sg |-> r.sg,
                nz |-> r.nz, ne |-> r.ne, ignored |-> r.ignored ]
OpJson(op) == [ id |-> op, width |-> WidthOf[op], fmt |-> FormatOf[op], mn |-> Mnemonics[op], tpl |-> Templates[op],
                row32 |-> RowJson(ParseTable[32][op]), row64 |-> RowJson(ParseTable[64][op]), absent |-> (op \in AbsentOps),
                rds |-> RdRange(op), rs1s |-> Rs1Range(op), rs2s |-> Rs2Range(op),
                span32 |-> ImmRange(op, 32), span64 |-> ImmRange(op, 64), own |-> IsasOf(op),
                debug |-> DebugOp(op), expand |-> IF op \in ShortOps THEN << Rules[op] >> ELSE << >> ]
VectorsOf(k) == LET r == AllRows[k] IN SetToSeq(RowCalls(k, r.width))
Vector(c) == LET d == Decode(c.width, c.w, c.isa) IN
    [ width |-> c.width, w |-> c.w, isa |-> c.isa, ok |-> d.ok, e |-> d.e, v |-> d.v,
      debug |-> IF d.ok THEN DebugText(d.v) ELSE "", text |-> IF d.ok THEN Text(d.v) ELSE "", dev |-> Deviating(c.width, c.w, c.isa),
      long |-> IF d.ok /\ c.width = 16 THEN ExpandWord(d.v, c.isa) ELSE << 0, 0 >> ]
Vectors == LET vs == FlattenSeq([k \in 1..Len(AllRows) |-> VectorsOf(k)]) IN [k \in 1..Len(vs) |-> Vector(vs[k])]

Data == [ tree32 |-> Tree32, tree16 |-> Tree16,
          rows |-> [k \in 1..Len(AllRows) |-> RowJson(AllRows[k])],
          ops |-> LET s == SetToSeq(Ops) IN [k \in 1..Len(s) |-> OpJson(s[k])],
          abi |-> Abi ]
\* TLC wants a behaviour: one state, nothing happens.
XInit == pc = "" /\ call = << >> /\ ext = "" /\ ins = Blank /\ out = NoReply /\ text = ""
XSpec == XInit /\ [][UNCHANGED vars]_vars
ASSUME JsonSerialize(IOEnv.EXPORT_DIR \o "/spec.json", Data)
ASSUME ndJsonSerialize(IOEnv.EXPORT_DIR \o "/vectors.ndjson", Vectors)
===========================================================================
