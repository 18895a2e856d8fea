------------------------------- MODULE Stream -------------------------------
(***************************************************************************)
(* Walking a halfword stream.  The walker looks at the halfword at pos; if *)
(* its two low bits are 11 it takes two halfwords and decodes them as one  *)
(* 32-bit word, otherwise one halfword decoded as a 16-bit word.  A        *)
(* refused word is skipped by the same length.  A long instruction whose   *)
(* second half lies beyond the end stops the walk.                         *)
(***************************************************************************)
EXTENDS Decoder

CONSTANTS Mem,       \* set of memories: sequences of halfwords
          Isas
VARIABLES mem, target, pos, steps, halt
wvars == << mem, target, pos, steps, halt >>

WInit == mem \in Mem /\ target \in Isas /\ pos = 1 /\ steps = << >> /\ halt = FALSE

LongAt(m, p) == m[p] % 4 = 3
Advance(len, width, w) ==
    LET d == Decode(width, w, target) IN
    /\ steps' = Append(steps, [at |-> pos, len |-> len, ok |-> d.ok, op |-> d.v.op, compressed |-> d.v.compressed])
    /\ pos' = pos + len
    /\ UNCHANGED << mem, target, halt >>
Take16 == /\ ~halt /\ pos <= Len(mem) /\ ~LongAt(mem, pos)
          /\ Advance(1, 16, << 0, mem[pos] >>)
Take32 == /\ ~halt /\ pos < Len(mem) /\ LongAt(mem, pos)
          /\ Advance(2, 32, << mem[pos + 1], mem[pos] >>)
EndWalk == /\ ~halt
           /\ pos > Len(mem) \/ (pos = Len(mem) /\ LongAt(mem, pos))
           /\ halt' = TRUE /\ UNCHANGED << mem, target, pos, steps >>
WNext == Take16 \/ Take32 \/ EndWalk
WSpec == WInit /\ [][WNext]_wvars /\ WF_wvars(WNext)

\* C11 for streams.
Contiguous == /\ \A k \in 1..Len(steps) : steps[k].at = (IF k = 1 THEN 1 ELSE steps[k - 1].at + steps[k - 1].len)
              /\ Len(steps) > 0 => pos = steps[Len(steps)].at + steps[Len(steps)].len
FlagIsLength == \A k \in 1..Len(steps) : steps[k].ok => (steps[k].compressed <=> steps[k].len = 1)
\* The wrong width is never accepted at any position, so a walker that trusts the decoder
\* instead of the low bits takes the same steps.
WidthDecided == \A p \in 1..Len(mem) :
    /\ LongAt(mem, p) => ~Decode(16, << 0, mem[p] >>, target).ok
    /\ ~LongAt(mem, p) /\ p < Len(mem) => ~Decode(32, << mem[p + 1], mem[p] >>, target).ok
InRange == pos <= Len(mem) + 1
Ends == <>halt
===========================================================================
