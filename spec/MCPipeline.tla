----------------------------- MODULE MCPipeline -----------------------------
(***************************************************************************)
(* Finite sets of calls for TLC.  VERIF_SEED, MC_SAMPLES and MC_MODE come  *)
(* from the environment.                                                   *)
(***************************************************************************)
EXTENDS Pipeline, Cubes, TLC, IOUtils

Num(str) == LET D == "0123456789"
                RECURSIVE Val(_, _)
                Val(k, acc) == IF k > Len(str) THEN acc
                               ELSE Val(k + 1, acc * 10 + ((CHOOSE d \in 1..10 : SubSeq(D, d, d) = SubSeq(str, k, k)) - 1))
            IN Val(1, 0)
Seed == Num(IOEnv.VERIF_SEED) % 65536
Samples == Num(IOEnv.MC_SAMPLES)
Mode == IOEnv.MC_MODE

\* A small generator that stays inside TLC's integers.
Step(x) == (x * 25173 + 13849) % 65536
RECURSIVE Steps(_, _)
Steps(x, n) == IF n = 0 THEN x ELSE Steps(Step(x), n - 1)
Mix(a, b) == Steps((Seed * 31 + a * 257 + b * 4099 + 17) % 65536, 5 + ((a + b) % 7))
RandomWord(a, b) == << Mix(a, 2 * b), Mix(a + 7, 2 * b + 1) >>

\* Replace the free bits of row r by those of w.
Into(r, w) == << ((65535 - r.q.m[1]) & w[1]) + r.q.v[1],
                 IF r.width = 16 THEN ((65535 - r.q.m[2]) & w[2]) + r.q.v[2]
                 ELSE ((65535 - r.q.m[2]) & w[2]) + r.q.v[2] >>
Trim(r, w) == IF r.width = 16 THEN << 0, w[2] >> ELSE w
\* Base word j of row k: operands all zero, all one, or random; f < width flips one bit.
Base(k, j) == LET r == AllRows[k] IN
    Trim(r, Into(r, IF j = 0 THEN << 0, 0 >> ELSE IF j = 1 THEN << 65535, 65535 >> ELSE RandomWord(k, j)))
NearWord(k, j, f) == IF f < AllRows[k].width THEN Flip(Base(k, j), f) ELSE Base(k, j)
RowGroups(width) == {<< "row", k, width >> : k \in {x \in 1..Len(AllRows) : AllRows[x].width = width}}
RowCalls(k, width) == {[width |-> width, w |-> NearWord(k, j, f), isa |-> isa] :
    j \in 0..(Samples + 1), f \in 0..width, isa \in {32, 64}}

\* Every 16-bit word.
Pages16 == {<< "page", p, 16 >> : p \in 0..255}
Page(p) == {[width |-> 16, w |-> << 0, 256 * p + x >>, isa |-> isa] : x \in 0..255, isa \in {32, 64}}

\* Every (major opcode, funct3) with funct7 and register fields from pools.
FieldWord(o, f3, f7, rd, rs1, rs2) ==
    << f7 * 512 + rs2 * 16 + rs1 \div 2, (rs1 % 2) * 32768 + f3 * 4096 + rd * 128 + o >>
Cells == {<< "cell", c, 32 >> : c \in 0..1023}
Grid(c, F7s, Regs, Rs2s) == {[width |-> 32, w |-> FieldWord(c \div 8, c % 8, f7, rd, rs1, rs2), isa |-> isa] :
    f7 \in F7s, rd \in Regs, rs1 \in Regs, rs2 \in Rs2s, isa \in {32, 64}}
SomeF7 == {0, 1, 8, 9, 16, 24, 32, 36, 96, 100, 102, 103}

\* The corners of the decided cubes: together they stand for every word.
CubeGroups == IF Mode = "cubes" THEN {<< "cube", c, c.width >> : c \in Decide(Everything(32)) \cup Decide(Everything(16))} ELSE {}
CornerCalls(c) == {[width |-> c.width, w |-> w, isa |-> isa] : w \in Corners(c), isa \in {32, 64}}

MCGroups ==
    CASE Mode = "rows32" -> RowGroups(32)
      [] Mode = "rows16" -> RowGroups(16)
      [] Mode = "rows" -> RowGroups(32) \cup RowGroups(16)
      [] Mode = "all16" -> Pages16
      [] Mode = "cubes" -> CubeGroups
      [] Mode \in {"grid", "biggrid"} -> Cells
MCCallsOf(g) ==
    CASE g[1] = "row" -> RowCalls(g[2], g[3])
      [] g[1] = "page" -> Page(g[2])
      [] g[1] = "cube" -> CornerCalls(g[2])
      [] g[1] = "cell" -> IF Mode = "grid" THEN Grid(g[2], SomeF7, {0, 5}, {0, 1, 5, 28})
                          ELSE Grid(g[2], 0..127, {0, 1, 5}, {0, 1, 2, 4, 5, 28})

ASSUME ListingFacts
===========================================================================
