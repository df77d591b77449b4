----------------------------- MODULE GenericLen -----------------------------
(***************************************************************************)
(* Node counts of compound trees, as multiples of powers of two.           *)
(***************************************************************************)
EXTENDS Compound, SequencesExt
CONSTANTS MaxBit
VARIABLE c
Arities == {<<2, 0, 0>>, <<2, 1, 0>>, <<2, 4, 0>>, <<2, 4, 2>>, <<2, 3, 5>>, <<4, 0, 0>>, <<4, 2, 0>>, <<4, 5, 3>>, <<8, 0, 0>>, <<8, 8, 0>>, <<8, 8, 2>>,
            <<8, 1, 1>>, <<16, 2, 0>>, <<16, 11, 7>>}
Log(b) == CHOOSE e \in 1..10 : Pow(2, e) = b
Init == c \in Arities
Next == FALSE /\ UNCHANGED c
Expect(k) ==
  LET s == Log(c[1])
      mul == Max(1, c[2]) * Max(1, c[3])
      add == IF c[3] > 0 THEN 1 + c[3] ELSE IF c[2] > 0 THEN 1 ELSE 0
  IN  <<[m |-> <<<<1, s * k>>>>, c |-> 0], [m |-> [l \in 1..(k + 1) |-> <<mul, s * (l - 1)>>], c |-> add]>>
Ks == 1..(MaxBit \div Log(c[1]))
Ival(x) == LET f[y \in 0..Len(x.m)] == IF y = 0 THEN x.c ELSE f[y - 1] + x.m[y][1] * Pow(2, x.m[y][2]) IN f[Len(x.m)]
Agrees == \A k \in Ks : Log(c[1]) * k <= 16 => Ival(Expect(k)[2]) = CLen(Shape(c[1], Pow(c[1], k), c[2], c[3]))
Emit == Say([k |-> "geolen", a |-> c, exp |-> [k \in Ks |-> Expect(k)]])
=============================================================================
