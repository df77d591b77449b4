------------------------------ MODULE Geometry ------------------------------
(***************************************************************************)
(* Sizes of trees over the whole machine word.  TLC's integers have 32 bits *)
(* and the code's have 64, so numbers are written in binary: for arity 2^s  *)
(* and 2^(s*k) leaves every row has a width that is a power of two, all     *)
(* widths differ, and a node count is a SET OF BIT POSITIONS.  Other        *)
(* numbers are sums of multiples m * 2^e plus a small constant.             *)
(* Each state is one arity; its line holds all expected values.             *)
(***************************************************************************)
EXTENDS MerkleCore, SequencesExt

CONSTANTS MaxBit        \* highest bit of a node count
VARIABLE s

Init == s \in 1..MaxBit
Next == FALSE /\ UNCHANGED s

Ks == 1..(MaxBit \div s)

(* row l of the tree with 2^(s*k) leaves has 2^(s*(k-l)) nodes *)
RowBit(k, l) == s * (k - l)
LenBits(k) == {RowBit(k, l) : l \in 0..k}
CacheBits(k, r) == {RowBit(k, l) : l \in (r + 1)..k}
DefRows(k) == LET m == IF k < 2 THEN 0 ELSE k - 1 IN
              CASE s = 1 -> Min(m, 7) [] s = 2 -> Min(m, 5) [] OTHER -> Min(m, 2)

(* numbers: [m, c]: sum of m[x][1] * 2^m[x][2], plus c *)
Num(m, c) == [m |-> m, c |-> c]
Bits(S) == Num([x \in 1..Cardinality(S) |-> <<1, SetToSortSeq(S, <)[x]>>], 0)
P2(e) == Num(<<<<1, e>>>>, 0)
Off(num, d) == [num EXCEPT !.c = @ + d]
Small(c) == Num(<<>>, c)

Good(k) == [n |-> P2(s * k), len |-> Bits(LenBits(k)), rc |-> k + 1, def |-> DefRows(k),
            lemma |-> Num(<<<<k, s>>>>, 2 - k),
            cache |-> [x \in 1..k |-> Bits(CacheBits(k, x - 1))],
            \* discarding that many rows leaves nothing
            none |-> <<k, k + 1, k + 7>>]

(* leaf counts that are not powers of the arity *)
BadCounts == LET es == 0..63 IN
   {P2(e) : e \in {x \in es : x % s # 0}}
   \cup {Off(P2(e), 1) : e \in es \ {0}} \cup {Off(P2(e), -1) : e \in es \ {0, 1}}
   \cup {Num(<<<<3, e>>>>, 0) : e \in 0..62} \cup {Small(0)}
(* fewer leaves than the arity *)
TooFew == {P2(e) : e \in 0..(s - 1)}

(* node counts that no tree of this arity has *)
Lens == {LenBits(k) : k \in Ks}
SmallLens == {LET f[k \in 0..10] == IF k = 0 THEN 1 ELSE f[k - 1] + Pow(2, s * k) IN f[y] : y \in {x \in 0..10 : s * x <= 12}}
BadLens ==
   {Small(x) : x \in (0..300) \ SmallLens}
   \cup {Off(Bits(b), d) : b \in Lens, d \in {-1, 1}}
   \cup (IF s = 1 THEN {} ELSE {Bits(0..e) : e \in 1..62})
   \cup {P2(e) : e \in 1..63}
   \cup {Num(<<<<1, 63>>>>, d) : d \in {1, 2, 3}}
   \cup {Num(<<<<1, 64>>>>, -1)} \cup {Num(<<<<1, 64>>>>, 0 - x) : x \in 2..9}
   \cup UNION {{Bits(LenBits(k) \ {x}) : x \in (LenBits(k) \ {s * k})} : k \in Ks \ {1}}
   \cup {Bits(LenBits(k) \cup {s * k + 1}) : k \in {y \in Ks : s > 1 /\ s * y < 62}}
(* (for arity 2 a count of the form 2^e - 1 is a tree) *)
Sane(set) == IF s # 1 THEN set
             ELSE {x \in set : ~(Len(x.m) = 1 /\ x.m[1][1] = 1 /\ x.c = -1)}

Sane2 == BadCounts \ {P2(0)}
Case == [k |-> "geo", s |-> s,
         good |-> [k \in Ks |-> Good(k)],
         badn |-> SetToSeq(Sane2), few |-> SetToSeq(TooFew), badlen |-> SetToSeq(Sane(BadLens) )]

-----------------------------------------------------------------------------
(* the bit sets are the sums they stand for *)
Ival(S) == LET f[x \in 0..30] == (IF x \in S THEN Pow(2, x) ELSE 0) + (IF x = 0 THEN 0 ELSE f[x - 1]) IN f[30]
Agrees ==
  /\ \A k \in Ks : s * k <= 24 =>
       LET b == Pow(2, s) n == Pow(2, s * k) IN
       /\ Ival(LenBits(k)) = TreeLen(b, n) /\ Rows(b, n) = k + 1 /\ LemmaLen(b, n) = 2 + (b - 1) * k
       /\ DefRows(k) = DefaultRows(b, n)
       /\ \A r \in 0..(k - 1) : CanDiscard(b, n, r) /\ Ival(CacheBits(k, r)) = CacheSize(b, n, r)
       /\ ~CanDiscard(b, n, k)
  (* one more row on the bottom; beyond 32 bits this is what carries the argument *)
  /\ \A k \in Ks : k + 1 \in Ks => LenBits(k + 1) = {x + s : x \in LenBits(k)} \cup {0}
  /\ \A k \in Ks : \A r \in 0..(k - 1) : LenBits(k) \ CacheBits(k, r) = {RowBit(k, l) : l \in 0..r} /\ 0 \in CacheBits(k, r)
  /\ \A k \in Ks : DefRows(k) <= k - 1
Emit == Say(Case)
=============================================================================
