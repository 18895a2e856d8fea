------------------------------- MODULE Render -------------------------------
(***************************************************************************)
(* Printing.  A template is a sequence of tokens; a token is a literal or  *)
(* names an operand and how it is printed.                                 *)
(***************************************************************************)
EXTENDS Decoder

Abi == << "zero", "ra", "sp", "gp", "tp", "t0", "t1", "t2", "s0", "s1",
          "a0", "a1", "a2", "a3", "a4", "a5", "a6", "a7",
          "s2", "s3", "s4", "s5", "s6", "s7", "s8", "s9", "s10", "s11",
          "t3", "t4", "t5", "t6" >>

Lit(s) == [t |-> "lit", s |-> s]
Tok(t) == [t |-> t, s |-> ""]
TRd == Tok("rd")   TRs1 == Tok("rs1")   TRs2 == Tok("rs2")
TImm == Tok("imm") TImmX == Tok("immx")
TCsrX == Tok("csrx") TCsrD == Tok("csrd")
Comma == Lit(", ")

Template(op) ==
    LET f == FormatOf[op] IN
    CASE op = "Priv.SFENCE_VMA" -> << TRs1, Comma, TRs2 >>
      [] op = "A.LR_D" -> << TRd, Comma, TRs1 >>
      [] op = "C.JR" -> << Lit("zero, 0("), TRs1, Lit(")") >>
      [] op = "C.JALR" -> << Lit("ra, 0("), TRs1, Lit(")") >>
      [] op = "C.MV" -> << TRd, Comma, TRs2 >>
      [] f \in {"RFormat", "MFormat", "AFormat"} -> << TRd, Comma, TRs1, Comma, TRs2 >>
      [] f \in {"RShamtFormat", "IFormat", "ClFormat", "ALrFormat"} -> << TRd, Comma, TRs1, Comma, TImm >>
      [] f \in {"SFormat", "CsFormat"} -> << TRs2, Comma, TImm, Lit("("), TRs1, Lit(")") >>
      [] f = "BFormat" -> << TRs1, Comma, TRs2, Comma, TImm >>
      [] f \in {"UFormat", "JFormat"} -> << TRd, Comma, TImmX >>
      [] f = "CiwFormat" -> << TRd, Lit(", sp, "), TImmX >>
      [] f = "CssFormat" -> << TRs2, Comma, TImm, Lit("(sp)") >>
      [] f = "CjFormat" -> << TImm >>
      [] f = "CiFormat" -> << TRd, Comma, TRd, Comma, TImm >>
      [] f \in {"CrFormat", "CaFormat"} -> << TRd, Comma, TRd, Comma, TRs2 >>
      [] f = "CbFormat" -> << TRs1, Comma, TImm >>
      [] f = "CsrFormat" -> << TRd, Comma, TCsrX, Comma, TRs1 >>
      [] f = "CsrUiFormat" -> << TRd, Comma, TCsrD, Comma, TImm >>
      [] f = "OnlyRd" -> << TRd >>
      [] f = "OnlyRs1" -> << TRs1 >>
      [] f = "OnlyRs2" -> << TRs2 >>
      [] f = "NoOperand" -> << >>
Templates == [op \in Ops |-> Template(op)]
Mnemonics == [op \in Ops |-> RowTable[64][op].mn]

\* "?" for what a well-formed instruction never lacks (C14), so that the text is total.
RegName(n) == IF n \in 0..31 THEN Abi[n + 1] ELSE "?"
Show(tok, i) ==
    CASE tok.t = "lit" -> tok.s
      [] tok.t = "rd" -> RegName(i.rd)
      [] tok.t = "rs1" -> RegName(i.rs1)
      [] tok.t = "rs2" -> RegName(i.rs2)
      [] tok.t = "imm" -> Dec(i.imm)
      [] tok.t = "immx" -> HexI32(i.imm)
      [] tok.t = "csrx" -> HexI32(i.rs2)
      [] tok.t = "csrd" -> Dec(i.rs2)

RECURSIVE ShowFrom(_, _, _)
ShowFrom(tpl, i, k) == IF k > Len(tpl) THEN "" ELSE Show(tpl[k], i) \o ShowFrom(tpl, i, k + 1)
Operands(i) == ShowFrom(Templates[i.op], i, 1)
Text(i) == IF Templates[i.op] = << >> THEN Mnemonics[i.op] ELSE Mnemonics[i.op] \o " " \o Operands(i)

\* Is everything the template mentions present?
Displayable(i) == \A k \in 1..Len(Templates[i.op]) :
    LET t == Templates[i.op][k].t IN
    /\ t = "rd" => i.rd \in 0..31
    /\ t = "rs1" => i.rs1 \in 0..31
    /\ t = "rs2" => i.rs2 \in 0..31
    /\ t \in {"imm", "immx"} => i.himm
    /\ t \in {"csrx", "csrd"} => i.rs2 \in 0..4095

\* Does the text of op mention operand f?
Shown(op, f) == \E k \in 1..Len(Templates[op]) : Templates[op][k].t \in
    (CASE f = "rd" -> {"rd"} [] f = "rs1" -> {"rs1"} [] f = "rs2" -> {"rs2", "csrx", "csrd"} [] f = "imm" -> {"imm", "immx"})
\* The tuple of displayed operands.
Displayed(i) == [k \in 1..Len(Templates[i.op]) |-> Show(Templates[i.op][k], i)]

(***************************************************************************)
(* Debug text: the value as it is written in Rust, every public field.     *)
(***************************************************************************)
BareName(op) == SubSeq(op, Len(ExtOf[op]) + 2, Len(op))
DebugOp(op) == ExtOf[op] \o "(" \o BareName(op) \o ")"
DebugOption(has, v) == IF has THEN "Some(" \o Dec(v) \o ")" ELSE "None"
DebugReg(v) == DebugOption(v # None, v)
DebugBool(b) == IF b THEN "true" ELSE "false"
DebugText(i) ==
    "Instruction { opc: " \o DebugOp(i.op) \o ", rd: " \o DebugReg(i.rd) \o ", rs1: " \o DebugReg(i.rs1)
    \o ", rs2: " \o DebugReg(i.rs2) \o ", imm: " \o DebugOption(i.himm, i.imm) \o ", inst_format: " \o i.fmt
    \o ", is_compressed: " \o DebugBool(i.compressed) \o " }"

\* Reading it back: the words of the text that are not punctuation, in order.
RECURSIVE WordsFrom(_, _, _, _)
WordsFrom(s, k, w, acc) ==
    IF k > Len(s) THEN (IF w = "" THEN acc ELSE Append(acc, w))
    ELSE LET c == SubSeq(s, k, k) IN
         IF c \in {" ", "\n", ",", ":", "(", ")", "{", "}"}
         THEN WordsFrom(s, k + 1, "", IF w = "" THEN acc ELSE Append(acc, w))
         ELSE WordsFrom(s, k + 1, w \o c, acc)
DigitVal(c) == (CHOOSE d \in 1..10 : SubSeq("0123456789", d, d) = c) - 1
RECURSIVE NatOf(_, _, _)
NatOf(s, k, acc) == IF k > Len(s) THEN acc ELSE NatOf(s, k + 1, acc * 10 + DigitVal(SubSeq(s, k, k)))
IntOf(s) == IF SubSeq(s, 1, 1) = "-" THEN -NatOf(s, 2, 0) ELSE NatOf(s, 1, 0)
\* From word k on: the value of an optional number and the position after it.
OptionAt(ws, k) == IF ws[k] = "None" THEN [has |-> FALSE, v |-> 0, next |-> k + 1]
                   ELSE [has |-> TRUE, v |-> IntOf(ws[k + 1]), next |-> k + 2]
Unread(s) ==
    LET ws == WordsFrom(s, 1, "", << >>)
        rd == OptionAt(ws, 6)
        rs1 == OptionAt(ws, rd.next + 1)
        rs2 == OptionAt(ws, rs1.next + 1)
        im == OptionAt(ws, rs2.next + 1)
        Reg(o) == IF o.has THEN o.v ELSE None
    IN [ op |-> ws[3] \o "." \o ws[4], rd |-> Reg(rd), rs1 |-> Reg(rs1), rs2 |-> Reg(rs2),
         himm |-> im.has, imm |-> im.v, fmt |-> ws[im.next + 1], compressed |-> (ws[im.next + 3] = "true") ]

\* The multi-line form: the same text with every bracket opened over several lines, four spaces
\* for each bracket that is open, and a comma after the last item of a bracket too.
RECURSIVE Spaces(_)
Spaces(n) == IF n = 0 THEN "" ELSE "    " \o Spaces(n - 1)
RECURSIVE LayFrom(_, _, _)
LayFrom(s, k, depth) ==
    IF k > Len(s) THEN ""
    ELSE LET c == SubSeq(s, k, k)
             more == k < Len(s) /\ SubSeq(s, k + 1, k + 1) = " " IN
         CASE c \in {"(", "{"} -> c \o "\n" \o Spaces(depth + 1) \o LayFrom(s, IF more THEN k + 2 ELSE k + 1, depth + 1)
           [] c = "," /\ more -> ",\n" \o Spaces(depth) \o LayFrom(s, k + 2, depth)
           [] c = " " /\ k < Len(s) /\ SubSeq(s, k + 1, k + 1) = "}" -> LayFrom(s, k + 1, depth)
           [] c \in {")", "}"} -> ",\n" \o Spaces(depth - 1) \o c \o LayFrom(s, k + 1, depth - 1)
           [] OTHER -> c \o LayFrom(s, k + 1, depth)
Lay(s) == LayFrom(s, 1, 0)
PrettyText(i) == Lay(DebugText(i))

\* And back on one line, however it was laid out.
Blanks == {" ", "\n", "\t"}
RECURSIVE SkipBlanks(_, _)
SkipBlanks(s, k) == IF k <= Len(s) /\ SubSeq(s, k, k) \in Blanks THEN SkipBlanks(s, k + 1) ELSE k
RECURSIVE FlatFrom(_, _)
FlatFrom(s, k) ==
    IF k > Len(s) THEN ""
    ELSE LET c == SubSeq(s, k, k)
             n == SkipBlanks(s, k + 1)
             last == n > Len(s) \/ SubSeq(s, n, n) \in {")", "}"} IN
         CASE c \in Blanks -> FlatFrom(s, k + 1)
           [] c = "," -> (IF last THEN "" ELSE ", ") \o FlatFrom(s, n)
           [] c = ":" -> ": " \o FlatFrom(s, n)
           [] c = "{" -> " { " \o FlatFrom(s, n)
           [] c = "}" -> " }" \o FlatFrom(s, n)
           [] OTHER -> c \o FlatFrom(s, k + 1)
Flat(s) == FlatFrom(s, 1)

(***************************************************************************)
(* Mnemonics derived from the opcode's name, to cross-check the listing.   *)
(***************************************************************************)
UpperCase == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
LowerCase == "abcdefghijklmnopqrstuvwxyz"
LowerChar(c) == LET S == {k \in 1..26 : SubSeq(UpperCase, k, k) = c} IN
    IF c = "_" THEN "." ELSE IF S = {} THEN c ELSE LET k == CHOOSE x \in S : TRUE IN SubSeq(LowerCase, k, k)
RECURSIVE Lower(_)
Lower(s) == IF s = "" THEN "" ELSE LowerChar(SubSeq(s, 1, 1)) \o Lower(SubSeq(s, 2, Len(s)))
Name(op) == SubSeq(op, Len(ExtOf[op]) + 2, Len(op))
NameMnemonic(op) ==
    CASE ExtOf[op] = "C" -> "C." \o Lower(Name(op))
      [] op = "Zicntr.RDCYCLE_H" -> "rdcycleh"
      [] op = "Zicntr.RDTIME_H" -> "rdtimeh"
      [] op = "Zicntr.RDINSTRET_H" -> "rdinstreth"
      [] OTHER -> Lower(Name(op))
===========================================================================
