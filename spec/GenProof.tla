------------------------------ MODULE GenProof ------------------------------
(***************************************************************************)
(* Honest proofs for the harness: per shape, the definition of all nodes    *)
(* and the exact proofs of a set of leaves, and indices to be refused.      *)
(* Used for single trees (C04) and compound trees (C07, C08).               *)
(***************************************************************************)
EXTENDS Compound, SequencesExt

CONSTANTS Cases,      \* set of [sh, es, mode, ds, part, parts, all]
          Seed,
          Kind        \* "proof" or "compound"

VARIABLE c

(* a small generator of pseudo-random numbers within 32 bits *)
RECURSIVE Lcg(_, _)
Lcg(x, k) == IF k = 0 THEN x ELSE Lcg((x * 75 + 74) % 65537, k - 1)
Rnd(k, m) == (Lcg((Seed * 131 + k * 7 + 11) % 65537, 3) * 32749 + Lcg((Seed + k * 31) % 65537, 4)) % m

(* leaves whose proof is looked at: all, or the edges of rows and parts and some more *)
Leaves(sh, all) ==
  LET n == CLeafs(sh) IN
  IF all THEN 0..(n - 1)
  ELSE LET near(x) == {x - 1, x, x + 1}
           edges == UNION {near(e) : e \in {0, n - 1, n \div 2, sh.b, n - sh.b, sh.m, sh.m \div 2} \cup {Pow(sh.b, k) : k \in 1..Depth(sh.b, sh.m)}}
       IN  (edges \cup {Rnd(k, n) : k \in 1..24}) \cap 0..(n - 1)

(* part x.part of x.parts of the leaves, to spread a large tree over several cases *)
Mine(x) == {i \in Leaves(x.sh, x.all) : i % x.parts = x.part}

Compact(layers) == [k \in 1..Len(layers) |-> <<layers[k].sub, layers[k].top, layers[k].lemma, layers[k].path>>]

Table(sh) == LET inner == {id \in 0..(NodeCount(sh) - 1) : ~IsLeaf(sh, id)}
                 ids == SetToSortSeq(inner, <)
             IN  [x \in 1..Len(ids) |-> <<ids[x], CHeight(sh, ids[x]), CKids(sh, ids[x])>>]

(* the combining nodes only; base trees are given by their rows *)
Tops(sh) == LET ids == SetToSortSeq({id \in (Parts(sh) * PLen(sh))..(NodeCount(sh) - 1) : TRUE}, <)
            IN  [x \in 1..Len(ids) |-> <<ids[x], CHeight(sh, ids[x]), CKids(sh, ids[x])>>]

(* lists of part sizes (or numbers of parts) that are no compound tree: other counts, or a part *)
(* that is larger or smaller than the others; all combinations for few parts                  *)
Bad(sh) ==
  LET P == Parts(sh)
      other == {Pow(sh.b, k) : k \in 1..(Depth(sh.b, sh.m) + 1)} \ {sh.m}
      counts == {[q \in 1..k |-> sh.m] : k \in {0, P - 1, P + 1, 2 * P} \ {P}}
      mixed == IF P = 1 THEN {}
               ELSE IF P <= 4 THEN {f \in [1..P -> {sh.m, sh.m * sh.b}] : Cardinality(Range(f)) > 1}
               ELSE {[q \in 1..P |-> IF q = k THEN z ELSE sh.m] : k \in 1..P, z \in {sh.m * sh.b}}
      small == IF sh.m > sh.b /\ P > 1 THEN {[q \in 1..P |-> IF q = k THEN sh.b ELSE sh.m] : k \in 1..P} ELSE {}
      byGroup == IF sh.t < 2 THEN {}
                 ELSE {[q \in 1..P |-> IF (q - 1) \div sh.s = g THEN sh.m * sh.b ELSE sh.m] : g \in 0..(sh.t - 1)}
  IN  SetToSeq(counts \cup mixed \cup small \cup byGroup)

(* numbers of discarded rows a configuration may use and cached proofs may ask for, with the start of the cached rows *)
RowNumbers(sh) == [k \in 1..(DefaultRows(sh.b, sh.m) + 1) |-> <<k - 1, CacheStart(sh.b, sh.m, k - 1)>>]

(* where the leaves of each part lie in the replica: <<whole elements, extra bytes>>; parts in reverse *)
(* order, with gaps, and not aligned                                                              *)
Offsets(sh) == [q \in 1..Parts(sh) |-> <<(Parts(sh) - q) * (sh.m + 30) + (q % 2), 1 + 3 * ((q + Seed) % 4)>>]
OffsetsApart(sh) ==
  \A q, p \in 1..Parts(sh) : q # p =>
     LET o == Offsets(sh) IN \/ o[q][1] + sh.m + 10 < o[p][1] \/ o[p][1] + sh.m + 10 < o[q][1]

(* stores lacking rows 1..r0: <<r0, start of the cached rows, requests>>; a request is <<r, must it be answered>> *)
Requests(sh, r0) ==
  LET m == Rows(sh.b, sh.m) - 2
      rs == IF m <= 6 THEN 0..(m + 1) ELSE {0, 1, r0, r0 + 1, DefaultRows(sh.b, sh.m), m, m + 1}
      sq == SetToSortSeq(rs, <)
  IN  [k \in 1..Len(sq) |-> <<sq[k], Answers(sh.b, sh.m, r0, sq[k])>>]
CachedRows(sh) ==
  LET m == Rows(sh.b, sh.m) - 2
      r0s == SetToSortSeq(IF m <= 6 THEN 0..m ELSE {0, 1, 2, DefaultRows(sh.b, sh.m), m}, <)
  IN  [k \in 1..Len(r0s) |-> <<r0s[k], CacheStart(sh.b, sh.m, r0s[k]), Requests(sh, r0s[k]), Answers(sh.b, sh.m, r0s[k], DefaultRows(sh.b, sh.m))>>]

Case(x) ==
  LET sh == x.sh is == SetToSortSeq(Mine(x), <) IN
  [k |-> Kind, b |-> sh.b, n |-> sh.m, s |-> sh.s, t |-> sh.t, es |-> x.es, mode |-> x.mode, ds |-> x.ds,
   rows |-> Layout(sh.b, sh.m), plen |-> PLen(sh), parts |-> Parts(sh), tops |-> Tops(sh),
   leafs |-> CLeafs(sh), len |-> CLen(sh), rc |-> CRows(sh), root |-> CRoot(sh),
   ids |-> [y \in 1..Len(is) |-> LeafId(sh, is[y])],
   proofs |-> [y \in 1..Len(is) |-> <<is[y], Compact(CProof(sh, is[y]))>>],
   bad |-> IF Kind = "compound" THEN Bad(sh) ELSE <<>>,
   cached |-> IF Kind = "cached" THEN CachedRows(sh) ELSE <<>>,
   rs |-> IF Kind = "compound" THEN RowNumbers(sh) ELSE <<>>,
   offsets |-> IF Kind = "compound" THEN Offsets(sh) ELSE <<>>,
   refused |-> <<CLeafs(sh), CLeafs(sh) + 1, CLeafs(sh) + sh.m, 2 * CLeafs(sh) + 3, CLen(sh), CLen(sh) + 1, 2000000000>>]

Mk(shs, ess, dss, modes, all, parts) ==
  {[sh |-> z[1], es |-> z[2], ds |-> z[3], mode |-> z[4], all |-> all, parts |-> parts, part |-> z[5]] :
     z \in shs \X ess \X dss \X modes \X (0..(parts - 1))}
Singles(b, m) == {Shape(b, Pow(b, k), 0, 0) : k \in {j \in Exps(b) \ {0} : Pow(b, j) <= m}}

Init == c \in Cases
Next == FALSE /\ UNCHANGED c

WellDefined ==
  LET sh == c.sh IN
  /\ TreeSize(sh.b, sh.m)
  /\ sh.t > 0 => sh.s > 0
  /\ OffsetsApart(sh)
  /\ \A i \in Mine(c) : LET p == CProof(sh, i) IN
       /\ Len(p[1].lemma) = LemmaLen(sh.b, sh.m)
       /\ LemmaIsSiblings(sh.b, sh.m, LeafIn(sh, i))
       /\ p[Len(p)].lemma[Len(p[Len(p)].lemma)] = CRoot(sh)

Emit == Say(Case(c))
=============================================================================
