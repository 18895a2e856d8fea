------------------------------- MODULE Bits -------------------------------
(***************************************************************************)
(* Instruction words as bit strings.                                       *)
(*                                                                         *)
(* TLC's integers are 32-bit signed, so a 32-bit word is a pair            *)
(* <<hi, lo>> of 16-bit halves.  A compressed (16-bit) word is <<0, lo>>.  *)
(***************************************************************************)
EXTENDS Integers, Sequences

Half == 0..65535

\* Bits e..s (inclusive, e >= s) of word w, as a number.  At most 20 bits are
\* ever asked for, which fits TLC's integers.
Slice(w, e, s) ==
    IF e < 16 THEN (w[2] \div 2^s) % 2^(e - s + 1)
    ELSE IF s >= 16 THEN (w[1] \div 2^(s - 16)) % 2^(e - s + 1)
    ELSE (w[2] \div 2^s) + (w[1] % 2^(e - 15)) * 2^(16 - s)

BitOf(w, i) == Slice(w, i, i)

\* The two low bits decide the length of an instruction.
IsLong(w) == w[2] % 4 = 3

\* v is an n-bit number; read it as two's complement (n = 0: unsigned).
Signed(v, n) == IF n > 0 /\ v >= 2^(n - 1) THEN v - 2^n ELSE v

\* Collect single bits: pairs is a sequence of <<source bit, target bit>>.
RECURSIVE GatherFrom(_, _, _)
GatherFrom(w, pairs, k) ==
    IF k > Len(pairs) THEN 0
    ELSE BitOf(w, pairs[k][1]) * 2^(pairs[k][2]) + GatherFrom(w, pairs, k + 1)
Gather(w, pairs) == GatherFrom(w, pairs, 1)

RECURSIVE BitsValue(_)
BitsValue(S) == IF S = {} THEN 0
                ELSE LET b == CHOOSE x \in S : TRUE IN 2^b + BitsValue(S \ {b})

\* The word whose set bits are exactly S.
WordOf(S) == << BitsValue({b - 16 : b \in {x \in S : x >= 16}}),
                BitsValue({b \in S : b < 16}) >>

BitsOf(w) == {b \in 0..31 : BitOf(w, b) = 1}

(***************************************************************************)
(* Text of numbers, as core::fmt prints them.                              *)
(***************************************************************************)
Digit(d) == SubSeq("0123456789abcdef", d + 1, d + 1)

RECURSIVE DecNat(_)
DecNat(n) == IF n < 10 THEN Digit(n) ELSE DecNat(n \div 10) \o Digit(n % 10)
Dec(n) == IF n < 0 THEN "-" \o DecNat(-n) ELSE DecNat(n)

RECURSIVE HexNat(_)
HexNat(n) == IF n < 16 THEN Digit(n) ELSE HexNat(n \div 16) \o Digit(n % 16)
Hex4(n) == Digit(n \div 4096) \o Digit((n \div 256) % 16) \o Digit((n \div 16) % 16) \o Digit(n % 16)
\* {:#x} of an i32: two's complement for negative numbers.
HexI32(n) == "0x" \o (IF n >= 0 THEN HexNat(n)
                      ELSE Hex4((n \div 65536) % 65536) \o Hex4(n % 65536))
===========================================================================
