----------------------------- MODULE MCSession -----------------------------
(* Two threads over a pool of requests that touch ISA-dependent words,     *)
(* refusals, both widths, the parsers, conversion and printing.            *)
EXTENDS Session, TLC
SomeWords == { << 32, << 0, 12291 >> >>,       \* ld: Rv64 only
               << 32, << 512, 4115 >> >>,      \* slli with amount 32: Rv64 only, bad funct7 on Rv32
               << 32, << 0, 19 >> >>,          \* addi
               << 16, << 0, 8193 >> >>,        \* c.jal / reserved c.addiw
               << 16, << 0, 8321 >> >> }       \* c.jal / c.addiw
MCRequests ==
    {DecodeReq(x[1], x[2], isa) : x \in SomeWords, isa \in {32, 64}}
    \cup {PartReq("imm", 32, << 512, 4115 >>, isa, "BaseI.SLLI") : isa \in {32, 64}}
MCFew == {DecodeReq(32, << 0, 12291 >>, isa) : isa \in {32, 64}} \cup {ConvertReq(<< 0, 0, 0, 12291 >>)}
Bound2 == Cardinality(seen) <= 2
Bound3 == Cardinality(seen) <= 3
===========================================================================
