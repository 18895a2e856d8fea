------------------------------- MODULE Cubes -------------------------------
(***************************************************************************)
(* Sets of words.  A cube [width, m, v] is the set of words of that width  *)
(* that agree with v on the bits of m.  Instead of walking the decision    *)
(* tree with one word, Follow walks it with a cube; instead of asking      *)
(* whether a row claims a word, RowOut and RowAsks say whether it claims   *)
(* all of a cube, none of it, or which bits decide.                        *)
(***************************************************************************)
EXTENDS Assembler

Known(c, b) == BitOf(c.m, b) = 1
Free(c) == {b \in 0..(c.width - 1) : ~Known(c, b)}
SetBit(w, b) == IF b < 16 THEN << w[1], w[2] | 2^b >> ELSE << w[1] | 2^(b - 16), w[2] >>
Fix(c, b, x) == [c EXCEPT !.m = SetBit(c.m, b), !.v = IF x = 1 THEN SetBit(c.v, b) ELSE c.v]
Everything(width) == [width |-> width, m |-> << 0, 0 >>, v |-> << 0, 0 >>]

\* Can some word of the cube have x in the slice e..s?  Do all have it?
May(c, e, s, x) == \A b \in s..e : Known(c, b) => BitOf(c.v, b) = (x \div 2^(b - s)) % 2
Must(c, e, s, x) == \A b \in s..e : Known(c, b) /\ BitOf(c.v, b) = (x \div 2^(b - s)) % 2

\* The leaf all words of the cube reach, or a bit that has to be known first.
Ask(b) == [k |-> "ask", id |-> b]
RECURSIVE Follow(_, _, _, _)
Follow(n, c, isa, side) ==
    CASE n.k = "sw" ->
           LET near == {j \in 1..Len(n.arms) : May(c, n.e, n.s, n.arms[j][1])}
               sure == {j \in near : Must(c, n.e, n.s, n.arms[j][1])}
           IN IF near = {} THEN Follow(n.dflt, c, isa, side)
              ELSE IF sure # {} THEN Follow(n.arms[CHOOSE j \in sure : TRUE][2], c, isa, side)
              ELSE Ask(Max({b \in n.s..n.e : ~Known(c, b)}))
      [] n.k = "isa" -> Follow(IF isa = 32 THEN n.n32 ELSE n.n64, c, isa, side)
      [] n.k = "dev" -> Follow(IF side = "ideal" THEN n.ideal ELSE n.actual, c, isa, side)
      [] OTHER -> n
LeafOf(c, isa, side) == Follow(TreeOf(c.width), c, isa, side)

\* A pattern matches no word of the cube; all of them; or the bits in Loose decide.
Against(c, q) == \/ (c.v[1] & q.m[1]) # (q.v[1] & c.m[1])
                 \/ (c.v[2] & q.m[2]) # (q.v[2] & c.m[2])
Inside(c, q) == (c.m[1] & q.m[1]) = q.m[1] /\ (c.m[2] & q.m[2]) = q.m[2] /\ ~Against(c, q)
Loose(c, q) == IF Against(c, q) THEN {} ELSE BitsOf(q.m) \ BitsOf(c.m)

\* The same for a row of the listing, with the fields it wants non-zero and its carve-outs.
ZeroField(c, S) == \A b \in S : Known(c, b) /\ BitOf(c.v, b) = 0
SomeOne(c, S) == \E b \in S : Known(c, b) /\ BitOf(c.v, b) = 1
RowOut(c, r) == \/ Against(c, r.q)
                \/ \E k \in 1..Len(r.nz) : ZeroField(c, r.nz[k])
                \/ \E k \in 1..Len(r.ne) : Inside(c, r.ne[k])
RowAsks(c, r) == Loose(c, r.q)
                 \cup UNION {{b \in r.nz[k] : ~Known(c, b)} : k \in {x \in 1..Len(r.nz) : ~SomeOne(c, r.nz[x])}}
                 \cup UNION {Loose(c, r.ne[k]) : k \in 1..Len(r.ne)}
\* Once nothing is asked, a row that is not out claims the whole cube.
RowsIn(c, isa) == LET rs == RowsOf(c.width) IN {k \in 1..Len(rs) : isa \in rs[k].isas /\ ~RowOut(c, rs[k])}
ListingAsks(c) == LET rs == RowsOf(c.width) IN UNION {RowAsks(c, rs[k]) : k \in {x \in 1..Len(rs) : ~RowOut(c, rs[x])}}
TreeAsks(c) == LET L == {LeafOf(c, isa, side) : isa \in {32, 64}, side \in {"ideal", "actual"}}
               IN {l.id : l \in {x \in L : x.k = "ask"}}
Asks(c) == LET a == TreeAsks(c) IN IF a # {} THEN a ELSE ListingAsks(c)

\* All decided cubes of a cube.
RECURSIVE Decide(_)
Decide(c) == LET a == Asks(c) IN
             IF a = {} THEN {c} ELSE Decide(Fix(c, Max(a), 0)) \cup Decide(Fix(c, Max(a), 1))

\* The words of a cube with no, one and all of its free bits set.
Spread(c, S) == LET w == WordOf(S) IN << c.v[1] + w[1], c.v[2] + w[2] >>
Corners(c) == {c.v, Spread(c, Free(c))} \cup {Spread(c, {b}) : b \in Free(c)}
===========================================================================
