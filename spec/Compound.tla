------------------------------ MODULE Compound ------------------------------
(***************************************************************************)
(* Trees made of trees.  A shape [b, m, s, t] has base trees of arity b     *)
(* with m leaves; s > 0 of them form a compound tree, t > 0 such compound   *)
(* trees form a top tree (s = t = 0 is a single tree).                      *)
(*                                                                         *)
(* Nodes are numbered globally: node k of base tree q is q*L + k with L the  *)
(* size of a base tree; then come the roots of the compound trees, in order, *)
(* and last the root of the top tree.                                       *)
(***************************************************************************)
EXTENDS MerkleCore

Shape(b, m, s, t) == [b |-> b, m |-> m, s |-> s, t |-> t]

Parts(sh) == Max(1, sh.s) * Max(1, sh.t)             \* number of base trees
Groups(sh) == IF sh.s = 0 THEN 0 ELSE Max(1, sh.t)   \* number of compound trees
PLen(sh) == TreeLen(sh.b, sh.m)
SubId(sh, g) == Parts(sh) * PLen(sh) + g
TopId(sh) == Parts(sh) * PLen(sh) + sh.t
PartRoot(sh, q) == q * PLen(sh) + Root(sh.b, sh.m)

CLeafs(sh) == Parts(sh) * sh.m
CLen(sh) == LET one == PLen(sh)
                sub == IF sh.s > 0 THEN sh.s * one + 1 ELSE one
            IN  IF sh.t > 0 THEN sh.t * sub + 1 ELSE sub
CRows(sh) == Rows(sh.b, sh.m) + (IF sh.s > 0 THEN 1 ELSE 0) + (IF sh.t > 0 THEN 1 ELSE 0)
CRoot(sh) == IF sh.t > 0 THEN TopId(sh) ELSE IF sh.s > 0 THEN SubId(sh, 0) ELSE Root(sh.b, sh.m)
NodeCount(sh) == Parts(sh) * PLen(sh) + Groups(sh) + (IF sh.t > 0 THEN 1 ELSE 0)

(* where leaf i lives, and the global number of it *)
PartOf(sh, i) == i \div sh.m
LeafIn(sh, i) == i % sh.m
LeafId(sh, i) == PartOf(sh, i) * PLen(sh) + LeafIn(sh, i)

IsLeaf(sh, id) == id < Parts(sh) * PLen(sh) /\ id % PLen(sh) < sh.m

Shift(q, seq) == [x \in 1..Len(seq) |-> q + seq[x]]

CKids(sh, id) ==
  IF id < Parts(sh) * PLen(sh)
  THEN Shift((id \div PLen(sh)) * PLen(sh), Kids(sh.b, sh.m, id % PLen(sh)))
  ELSE IF sh.t > 0 /\ id = TopId(sh) THEN [g \in 1..sh.t |-> SubId(sh, g - 1)]
  ELSE LET g == id - SubId(sh, 0) IN [p \in 1..sh.s |-> PartRoot(sh, g * sh.s + p - 1)]

(* the roots of a layer are combined with height 1, whatever is below *)
CHeight(sh, id) == IF id < Parts(sh) * PLen(sh) THEN Height(sh.b, sh.m, id % PLen(sh)) ELSE 1

Without(seq, k) == SubSeq(seq, 1, k - 1) \o SubSeq(seq, k + 1, Len(seq))

(* The proof of leaf i: a sequence of layers, innermost first.  A layer has *)
(* the arities its type declares (sub, top), its lemma and its path.        *)
CProof(sh, i) ==
  LET q    == PartOf(sh, i)
      base == [sub |-> 0, top |-> 0, lemma |-> Shift(q * PLen(sh), Lemma(sh.b, sh.m, LeafIn(sh, i))), path |-> Path(sh.b, sh.m, LeafIn(sh, i))]
      g    == IF sh.s = 0 THEN 0 ELSE q \div sh.s
      p    == IF sh.s = 0 THEN 0 ELSE q % sh.s
      subl == [sub |-> sh.s, top |-> 0,
               lemma |-> Without(CKids(sh, SubId(sh, g)), p + 1) \o <<SubId(sh, g)>>, path |-> <<p>>]
      topl == [sub |-> sh.s, top |-> sh.t,
               lemma |-> Without(CKids(sh, TopId(sh)), g + 1) \o <<TopId(sh)>>, path |-> <<g>>]
  IN  IF sh.s = 0 THEN <<base>> ELSE IF sh.t = 0 THEN <<base, subl>> ELSE <<base, subl, topl>>
=============================================================================
