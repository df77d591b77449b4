-------------------------------- MODULE Replica --------------------------------
(***************************************************************************)
(* Base data in an external replica (C13).  Leaf j of part q lies at byte    *)
(* offset[q] + j * es of the replica.  Positions are pairs <<g, x>> meaning  *)
(* g * 2^30 + x with 0 <= x < 2^30, so that positions beyond 4 GiB fit.      *)
(* A case gives the offsets, the position of every leaf, and for replicas    *)
(* cut short at interesting bytes which leaves can still be read.            *)
(***************************************************************************)
EXTENDS MerkleCore, SequencesExt

CONSTANTS Cases     \* set of [b, m, s, t, r, es, pat]

VARIABLE c
Init == c \in Cases
Next == UNCHANGED c

Giga == 1073741824
Norm(g, x) == <<g + x \div Giga, x % Giga>>
Add(p, k) == Norm(p[1], p[2] + k)                      \* k < 2^30
Less(p, q) == p[1] < q[1] \/ (p[1] = q[1] /\ p[2] < q[2])
Leq(p, q) == p = q \/ Less(p, q)

Parts == IF c.s = 0 THEN 1 ELSE IF c.t = 0 THEN c.s ELSE c.s * c.t
Size == c.m * c.es                                      \* bytes of the base row of a part
(* q from 0 *)
Offset(q) ==
  CASE c.pat = "packed"    -> Norm(0, q * Size)
    [] c.pat = "reversed"  -> Norm(0, (Parts - 1 - q) * Size)
    [] c.pat = "gaps"      -> Norm(0, 11 + q * (Size + 29))
    [] c.pat = "shuffled"  -> Norm(0, 3 + ((q * 7 + 2) % 31) * (Size + 13))
    [] c.pat = "far"       -> Norm(4 + q, 5 * q)
    [] c.pat = "edge"      -> Norm(3, (Giga - 1) - (Size \div 2) - q * (Size + 5))   \* the first one crosses 4 GiB
    [] c.pat = "edge2"     -> Norm(1, (Giga - 1) - (Size \div 2) - q * (Size + 5))   \* crosses 2 GiB
Pos(q, j) == Add(Offset(q), j * c.es)

Overlap(q1, q2) == Less(Offset(q1), Add(Offset(q2), Size)) /\ Less(Offset(q2), Add(Offset(q1), Size))
Disjoint == \A q1, q2 \in 0..(Parts - 1) : q1 # q2 => ~Overlap(q1, q2)
(* leaf i of the whole is leaf i mod m of part i div m *)
All == Parts * c.m
LeafPos(i) == Pos(i \div c.m, i % c.m)
Injective == \A i, k \in 0..(All - 1) : i # k => LeafPos(i) # LeafPos(k)

(* the replica ends at byte e: the leaves that lie entirely before it *)
Readable(e) == {i \in 0..(All - 1) : Leq(Add(LeafPos(i), c.es), e)}
CutLeaves == {0, All - 1, All \div 2, c.m - 1, (c.m \div 2) % All} \cap 0..(All - 1)
Cuts == SetToSeq({Add(LeafPos(i), x) : i \in CutLeaves, x \in {0, 1, c.es - 1, c.es}} \cup {<<0, 0>>})
CutSane == \A k \in 1..Len(Cuts), i \in 0..(All - 1) : i \in Readable(Cuts[k]) => Less(LeafPos(i), Cuts[k])

Emit == Say([k |-> "replica", b |-> c.b, n |-> c.m, s |-> c.s, t |-> c.t, r |-> c.r, es |-> c.es, pat |-> c.pat,
             rows |-> Layout(c.b, c.m), len |-> TreeLen(c.b, c.m), cs |-> CacheStart(c.b, c.m, c.r),
             offs |-> [q \in 1..Parts |-> Offset(q - 1)],
             pos |-> [i \in 1..All |-> LeafPos(i - 1)],
             cuts |-> [k \in 1..Len(Cuts) |-> <<Cuts[k], SetToSortSeq(Readable(Cuts[k]), <)>>]])
=============================================================================
