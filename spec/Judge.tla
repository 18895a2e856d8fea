------------------------------- MODULE Judge -------------------------------
(***************************************************************************)
(* When does an observed reply satisfy property p?  Each property looks at *)
(* its own part of the reply only, so that a change that breaks one        *)
(* property is not reported under another one that still holds.            *)
(*                                                                         *)
(* r  the request            a  the specified answer                       *)
(* g  the observed reply (a Session reply plus a flag panic)               *)
(* refs  earlier observations [req, rep] of this run the judgement needs   *)
(***************************************************************************)
EXTENDS Session

SameReply(x, y) == x.panic = y.panic /\ x.ok = y.ok /\ x.e = y.e /\ x.v = y.v /\ x.has = y.has /\ x.n = y.n /\ x.s = y.s
Regs(v) == << v.rd, v.rs1, v.rs2 >>
ImmOf(v) == << v.himm, v.imm >>
ConstOr2(spec, v, w) == IF spec.k = "const" THEN v \in {spec.add, Slice(w, spec.e, spec.s)} ELSE v = RegVal(w, spec)

Ref(refs, q) == LET S == {k \in 1..Len(refs) : refs[k].req = q} IN IF S = {} THEN << >> ELSE << refs[CHOOSE k \in S : TRUE].rep >>

JudgeAccept(width, r, a, g) == r.k = "decode" /\ r.width = width => ~g.panic /\ g.ok = a.ok
BothOk(width, r, a, g) == r.k = "decode" /\ r.width = width /\ ~g.panic /\ g.ok /\ a.ok

\* Two observations of one word, Rv32 (g32) and Rv64 (g64), against the two answers.
ImmShifts == Shifts \cup WideShift
JudgeXlen(a32, a64, g32, g64) ==
    g32.panic \/ g64.panic \/
      (/\ (~g32.ok /\ g32.e = "OnlyRv64Inst") <=> (~a32.ok /\ a32.e = "OnlyRv64Inst")
       /\ ~(~g64.ok /\ g64.e = "OnlyRv64Inst")
       /\ a32 = a64 => SameReply(g32, g64)
       /\ a32 # a64 /\ ~(~a32.ok /\ a32.e = "OnlyRv64Inst") =>
            /\ g32.ok = a32.ok /\ g64.ok = a64.ok
            /\ g32.v.op = a32.v.op /\ g64.v.op = a64.v.op
            /\ g32.v.op \in ImmShifts => ImmOf(g32.v) = ImmOf(a32.v)
            /\ g64.v.op \in ImmShifts => ImmOf(g64.v) = ImmOf(a64.v))

\* decode against the separately observed parts.
JudgeParts(r, g, refs) ==
    LET o == Ref(refs, OpcodeReq(r.width, r.w, r.isa)) IN
    IF o = << >> \/ (r.width = 16 /\ r.w[2] = 0) THEN TRUE
    ELSE IF ~o[1].ok THEN o[1].panic = g.panic /\ ~g.ok /\ g.e = o[1].e
    ELSE LET P(k) == Ref(refs, PartReq(k, r.width, r.w, r.isa, o[1].s))
             F == Ref(refs, FormatReq(o[1].s))
             Val(x) == IF x.has THEN x.n ELSE None
         IN IF \E k \in {"rd", "rs1", "rs2", "imm"} : P(k) = << >> THEN TRUE
            ELSE IF \A k \in {"rd", "rs1", "rs2", "imm"} : P(k)[1].ok
            THEN /\ g.ok /\ g.v.op = o[1].s
                 /\ g.v.rd = Val(P("rd")[1]) /\ g.v.rs1 = Val(P("rs1")[1]) /\ g.v.rs2 = Val(P("rs2")[1])
                 /\ ImmOf(g.v) = << P("imm")[1].has, P("imm")[1].n >>
                 /\ F # << >> => g.v.fmt = F[1].s
            ELSE ~g.ok
PartKinds == {"rd", "rs1", "rs2", "imm"}
JudgePart(r, a, g) ==
    IF WidthOf[r.op] # r.width THEN ~g.panic /\ ~g.ok /\ g.e = a.e
    ELSE LET row == ParseTable[r.isa][r.op]
             v == IF g.has THEN g.n ELSE None
         IN /\ ~g.panic /\ g.ok
            /\ r.k = "rd" => ConstOr2(row.rd, v, r.w)
            /\ r.k = "rs1" => ConstOr2(row.rs1, v, r.w)
            /\ r.k = "rs2" => ConstOr2(row.rs2, v, r.w)
            /\ r.k = "imm" => g.has = a.has /\ g.n = a.n

ShapeOf(i) == << i.rd # None, i.rs1 # None, i.rs2 # None, i.himm >>
RowShape(op) == LET r == RowTable[64][op] IN << r.rd.k # "none", r.rs1.k # "none", r.rs2.k # "none", r.himm >>
JudgeShape(i) ==
    i.op \in CrateOps =>
      /\ i.fmt = FormatOf[i.op]
      /\ ShapeOf(i) = RowShape(i.op)
      /\ i.rd \in -1..31 /\ i.rs1 \in -1..31
      /\ i.rs2 \in (IF ExtOf[i.op] = "Zicsr" THEN -1..4095 ELSE -1..31)
      /\ Displayable(i)

HasPrefix(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
SingleLine(s) == \A k \in 1..Len(s) : SubSeq(s, k, k) \notin {"\n", "\r"}
JudgeMnemonic(text, op) ==
    op \in CrateOps =>
      LET m == Mnemonics[op] IN
      /\ HasPrefix(text, m)
      /\ \/ text = m
         \/ SubSeq(text, Len(m) + 1, Len(m) + 1) = " " /\ Len(text) > Len(m) + 1
JudgeOperands(i, text, refs) ==
    LET n == Ref(refs, NameReq(i.op)) IN
    i.op \in CrateOps /\ Displayable(i) /\ n # << >> =>
      text = (IF Templates[i.op] = << >> THEN n[1].s ELSE n[1].s \o " " \o Operands(i))

\* Words that may share one decoding: shadow-stack swaps that differ in the ordering bits.
MayCoincide(w1, w2, i) == i.op \in Swaps /\ Clear(w1, {25, 26}) = Clear(w2, {25, 26})
JudgeInjective(r, g, refs) == \A k \in 1..Len(refs) :
    LET q == refs[k].req IN
    q.k = "decode" /\ q.width = r.width /\ q.isa = r.isa /\ q.w # r.w /\ g.ok /\ refs[k].rep.ok =>
        g.v # refs[k].rep.v \/ MayCoincide(r.w, q.w, g.v)

\* The decode of the expansion (r, g) of an earlier decoded compressed word.
JudgeExpansion(r, g, refs) == \A k \in 1..Len(refs) :
    LET q == refs[k].req
        i == refs[k].rep
        m == Answer(q, "actual") IN
    q.k = "decode" /\ q.width = 16 /\ r.width = 32 /\ q.isa = r.isa /\ ~i.panic /\ i.ok /\ m.ok /\ i.v.op = m.v.op
      /\ r.w = ExpandWord(m.v, r.isa) =>
        LET x == Expand(i.v) IN
        /\ ~g.panic /\ g.ok /\ g.v.op = x.op
        /\ Regs(g.v) = Regs(x) /\ ImmOf(g.v) = ImmOf(x)

\* Texts of hand-built instructions (r, g) against the text of another instruction of the opcode.
JudgeBuilt(r, g, refs) == \A k \in 1..Len(refs) :
    LET q == refs[k].req
        t == refs[k].rep IN
    q.k = "print" /\ ~t.panic /\ q.ins.op = r.ins.op /\ r.ins.op \in CrateOps /\ Displayable(q.ins) /\ Displayable(r.ins) =>
        /\ ~g.panic
        /\ Displayed(q.ins) = Displayed(r.ins) => g.s = t.s
        /\ t.s = Text(q.ins) => g.s = Text(r.ins)

\* Debug texts with the same fields, in whichever order.
RECURSIVE SplitAt(_, _, _, _)
SplitAt(str, k, from, acc) ==
    IF k >= Len(str) THEN Append(acc, SubSeq(str, from, Len(str)))
    ELSE IF SubSeq(str, k, k + 1) = ", " THEN SplitAt(str, k + 2, k + 2, Append(acc, SubSeq(str, from, k - 1)))
    ELSE SplitAt(str, k + 1, from, acc)
DebugHead == "Instruction { "
DebugFields(str) == SplitAt(SubSeq(str, Len(DebugHead) + 1, Len(str) - 2), 1, 1, << >>)
SameFields(s1, s2) ==
    s1 = s2 \/ (/\ Len(s1) = Len(s2) /\ HasPrefix(s1, DebugHead) /\ SubSeq(s1, Len(s1) - 1, Len(s1)) = " }"
               /\ LET f1 == DebugFields(s1)
                      f2 == DebugFields(s2) IN
                  Len(f1) = Len(f2) /\ {f1[k] : k \in 1..Len(f1)} = {f2[k] : k \in 1..Len(f2)})

InRange64(q) == IF q[4] % 4 = 3 THEN q[1] = 0 /\ q[2] = 0 ELSE q[1] = 0 /\ q[2] = 0 /\ q[3] = 0

Judge(p, r, a, g, refs) ==
    CASE p = "C01" -> JudgeAccept(32, r, a, g)
      [] p = "C02" -> BothOk(32, r, a, g) => g.v.op = a.v.op
      [] p = "C03" -> BothOk(32, r, a, g) => Regs(g.v) = Regs(a.v)
      [] p = "C04" -> BothOk(32, r, a, g) => ImmOf(g.v) = ImmOf(a.v)
      [] p = "C05" -> JudgeAccept(16, r, a, g) /\ (BothOk(16, r, a, g) => g.v.op = a.v.op)
      [] p = "C06" -> BothOk(16, r, a, g) => Regs(g.v) = Regs(a.v)
      [] p = "C07" -> BothOk(16, r, a, g) => ImmOf(g.v) = ImmOf(a.v)
      [] p = "C08" -> r.k = "decode" /\ r.isa = 64 =>
                        LET g32 == Ref(refs, DecodeReq(r.width, r.w, 32)) IN
                        g32 # << >> => JudgeXlen(Answer(DecodeReq(r.width, r.w, 32), "actual"), a, g32[1], g)
      [] p = "C09" -> r.k \in {"decode", "opcode"} \cup PartKinds => ~g.panic
      [] p = "C10" -> r.k \in {"decode", "opcode", "convert"} \cup PartKinds /\ ~g.panic /\ ~g.ok /\ ~a.ok => g.e = a.e
      [] p = "C11" -> r.k = "decode" /\ ~g.panic /\ g.ok => (g.v.compressed <=> r.width = 16) /\ (IsLong(r.w) <=> r.width = 32)
      [] p = "C12" -> r.k = "convert" =>
                        /\ ~g.panic
                        /\ IF ~InRange64(r.q) THEN ~g.ok
                           ELSE LET long == IsLong(<< r.q[3], r.q[4] >>)
                                    d == Ref(refs, DecodeReq(IF long THEN 32 ELSE 16, << r.q[3], r.q[4] >>, 64))
                                IN d # << >> => d[1].panic \/ SameReply(d[1], g)
      [] p = "C13" -> /\ r.k = "decode" => JudgeParts(r, g, refs)
                      /\ r.k \in PartKinds => JudgePart(r, a, g)
      [] p = "C14" -> /\ r.k = "decode" /\ ~g.panic /\ g.ok => JudgeShape(g.v)
                      /\ r.k = "format" => g.s = a.s
      [] p = "C15" -> r.k \in {"print", "name"} => ~g.panic /\ g.s # "" /\ SingleLine(g.s)
      [] p = "C16" -> /\ r.k = "name" /\ ~g.panic => g.s = a.s
                      /\ r.k = "print" /\ ~g.panic => JudgeMnemonic(g.s, r.ins.op)
      [] p = "C17" -> LET o == Ref(refs, r) IN o # << >> => SameReply(o[1], g)
      [] p = "C18" -> r.k = "decode" /\ ~g.panic => JudgeInjective(r, g, refs)
      [] p = "C19" -> r.k = "print" /\ ~g.panic => JudgeOperands(r.ins, g.s, refs)
      [] p = "C20" -> r.k = "decode" => JudgeExpansion(r, g, refs)
      [] p = "C21" -> r.k \in {"eqins", "eqop", "eqfmt"} => ~g.panic /\ g.has = a.has
      [] p = "C22" -> r.k = "print" => JudgeBuilt(r, g, refs)
      [] p = "C23" -> /\ r.k = "debug" => ~g.panic /\ SameFields(g.s, a.s)
                      /\ r.k = "pretty" => ~g.panic /\ SameFields(Flat(g.s), Flat(a.s))
                      /\ r.k = "debugop" => ~g.panic /\ g.s = a.s
      [] p = "C24" -> r.k = "decode" /\ ~g.panic /\ g.ok /\ g.v.op \in CrateOps => InRanges(g.v, r.isa)
      [] p = "C26" -> r.k = "print" /\ ~g.panic => \A k \in 1..Len(refs) :
                        LET q == refs[k].req IN
                        q.k = "decode" /\ refs[k].rep.ok /\ refs[k].rep.v = r.ins => StandsFor(g.s, q.width, q.w, q.isa)
===========================================================================
