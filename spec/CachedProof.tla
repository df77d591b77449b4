----------------------------- MODULE CachedProof -----------------------------
(***************************************************************************)
(* Generating a proof from a store that lacks rows 1..r0, the way the code  *)
(* does it: rebuild the segment of the tree around the leaf in memory (the  *)
(* partial tree), then walk up and take each sibling from the store where   *)
(* it has it and from the partial tree otherwise, with the index arithmetic *)
(* (base, width, segment start and shifts) of the code.                     *)
(***************************************************************************)
EXTENDS MerkleCore

CONSTANTS Sizes        \* set of <<b, n>>

VARIABLES b, n, r0, r, i, pc, part, prow, base, width, pbase, pwidth, shift, j, lemma, path
vars == <<b, n, r0, r, i, pc, part, prow, base, width, pbase, pwidth, shift, j, lemma, path>>

MaxRows(x, y) == Rows(x, y) - 2
eff == EffRows(b, n, r)
cached == Width(b, n, eff + 1)             \* leaves of the cached part
seg == n \div cached                       \* leaves of the segment
segStart == (i \div seg) * seg
cacheStart == CacheStart(b, n, eff)

Init ==
  /\ \E z \in Sizes : b = z[1] /\ n = z[2]
  /\ r0 \in 0..MaxRows(b, n)
  /\ r \in 0..(MaxRows(b, n) + 1)
  /\ i \in 0..(n - 1)
  /\ pc = "segment" /\ part = <<>> /\ prow = 0
  /\ base = 0 /\ width = n /\ pbase = 0 /\ pwidth = 0 /\ shift = 0 /\ j = i
  /\ lemma = <<>> /\ path = <<>>

(* what the store has: the base row, and the rows above the discarded ones *)
Has(k) == k < n \/ k >= CacheStart(b, n, r0)

(* copy the leaves of the segment *)
Segment ==
  /\ pc = "segment"
  /\ part' = Iota(segStart, segStart + seg)
  /\ prow' = 0
  /\ pc' = "partial"
  /\ UNCHANGED <<b, n, r0, r, i, base, width, pbase, pwidth, shift, j, lemma, path>>

(* hash the next row of the partial tree; its nodes are named by what they are in the full tree *)
PartialRow ==
  /\ pc = "partial"
  /\ IF seg \div Pow(b, prow) = 1
     THEN /\ pc' = "walk" /\ pwidth' = seg /\ shift' = segStart /\ lemma' = <<i>>
          /\ UNCHANGED <<part, prow>>
     ELSE LET first == Start(b, seg, prow)
              w     == Width(b, seg, prow + 1)
              row   == [x \in 1..w |-> HashName(b, n, SubSeq(part, first + (x - 1) * b + 1, first + x * b), prow)]
          IN  part' = part \o row /\ prow' = prow + 1 /\ UNCHANGED <<pc, pwidth, shift, lemma>>
  /\ UNCHANGED <<b, n, r0, r, i, base, width, pbase, j, path>>

Refuse == pc' = "refused" /\ UNCHANGED <<b, n, r0, r, i, part, prow, base, width, pbase, pwidth, shift, j, lemma, path>>

Walk ==
  /\ pc = "walk"
  /\ IF base + 1 >= TreeLen(b, n)
     THEN /\ pc' = "done" /\ lemma' = Append(lemma, Root(b, n))
          /\ UNCHANGED <<b, n, r0, r, i, part, prow, base, width, pbase, pwidth, shift, j, path>>
     ELSE LET first == (j \div b) * b
              ks    == SelectSeq([x \in 1..b |-> first + x - 1], LAMBDA k : k # j)
              inStore(k) == base + k < n \/ base + k >= cacheStart
              pidx(k) == pbase + k - shift
          IN  IF \E x \in 1..Len(ks) : \/ inStore(ks[x]) /\ ~Has(base + ks[x])
                                       \/ ~inStore(ks[x]) /\ (pidx(ks[x]) < 0 \/ pidx(ks[x]) >= Len(part))
              THEN Refuse
              ELSE /\ lemma' = lemma \o [x \in 1..Len(ks) |-> IF inStore(ks[x]) THEN base + ks[x] ELSE part[pidx(ks[x]) + 1]]
                   /\ path' = Append(path, j % b)
                   /\ base' = base + width /\ width' = width \div b
                   /\ pbase' = pbase + pwidth /\ pwidth' = pwidth \div b
                   /\ shift' = shift \div b /\ j' = j \div b
                   /\ UNCHANGED <<b, n, r0, r, i, pc, part, prow>>

Next == Segment \/ PartialRow \/ Walk
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

NeverWrong == pc = "done" => lemma = Lemma(b, n, i) /\ path = Path(b, n, i)
Answered == pc = "refused" => ~Answers(b, n, r0, r)
PartialIsTrue == \A x \in 1..Len(part) : part[x] # NoNode
Ends == <>(pc \in {"done", "refused"})
=============================================================================
