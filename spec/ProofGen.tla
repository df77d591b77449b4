------------------------------ MODULE ProofGen ------------------------------
(***************************************************************************)
(* Generating a proof the way the code walks the tree: cursor j within the  *)
(* row, base of the row, width of the row, one row per step; then one step  *)
(* per layer of a compound tree.  Checked against the definition (CProof)   *)
(* and against the chain that validation follows: hashing up from the leaf  *)
(* must give the root.                                                      *)
(***************************************************************************)
EXTENDS Compound

CONSTANTS Shapes

VARIABLES sh, i, base, width, j, lemma, path, layers, pc
vars == <<sh, i, base, width, j, lemma, path, layers, pc>>

q0 == PartOf(sh, i) * PLen(sh)

Init ==
  /\ sh \in Shapes
  /\ i \in 0..(CLeafs(sh) - 1)
  /\ base = 0 /\ width = sh.m /\ j = i % sh.m
  /\ lemma = <<q0 + (i % sh.m)>> /\ path = <<>> /\ layers = <<>> /\ pc = "rows"

Row ==
  /\ pc = "rows" /\ base + 1 < PLen(sh)
  /\ LET first == (j \div sh.b) * sh.b
         ks    == SelectSeq([c \in 1..sh.b |-> first + c - 1], LAMBDA k : k # j)
     IN  lemma' = lemma \o [x \in 1..Len(ks) |-> q0 + base + ks[x]]
  /\ path' = Append(path, j % sh.b)
  /\ base' = base + width
  /\ width' = width \div sh.b
  /\ j' = j \div sh.b
  /\ UNCHANGED <<sh, i, layers, pc>>

RowsDone ==
  /\ pc = "rows" /\ base + 1 >= PLen(sh)
  /\ layers' = <<[sub |-> 0, top |-> 0, lemma |-> Append(lemma, q0 + Root(sh.b, sh.m)), path |-> path]>>
  /\ pc' = IF sh.s > 0 THEN "sub" ELSE "done"
  /\ UNCHANGED <<sh, i, base, width, j, lemma, path>>

(* leaf i of a compound tree with `count` leaves and arity a lies in part i \div (count \div a) *)
SubLayer ==
  /\ pc = "sub"
  /\ LET count == sh.s * sh.m
         g     == i \div count
         idx   == (i % count) \div (count \div sh.s)
         roots == [p \in 1..sh.s |-> PartRoot(sh, g * sh.s + p - 1)]
         rest  == SelectSeq([p \in 1..sh.s |-> p - 1], LAMBDA p : p # idx)
     IN  layers' = Append(layers, [sub |-> sh.s, top |-> 0,
                       lemma |-> [x \in 1..Len(rest) |-> roots[rest[x] + 1]] \o <<SubId(sh, g)>>, path |-> <<idx>>])
  /\ pc' = IF sh.t > 0 THEN "top" ELSE "done"
  /\ UNCHANGED <<sh, i, base, width, j, lemma, path>>

TopLayer ==
  /\ pc = "top"
  /\ LET count == sh.t * sh.s * sh.m
         idx   == i \div (count \div sh.t)
         rest  == SelectSeq([p \in 1..sh.t |-> p - 1], LAMBDA p : p # idx)
     IN  layers' = Append(layers, [sub |-> sh.s, top |-> sh.t,
                       lemma |-> [x \in 1..Len(rest) |-> SubId(sh, rest[x])] \o <<TopId(sh)>>, path |-> <<idx>>])
  /\ pc' = "done"
  /\ UNCHANGED <<sh, i, base, width, j, lemma, path>>

Next == Row \/ RowsDone \/ SubLayer \/ TopLayer
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* the value reached by hashing up, as a node number, or NoNode *)
Name(cs, h) ==
  LET ids == {x \in 0..(NodeCount(sh) - 1) : ~IsLeaf(sh, x)}
      hit == {x \in ids : CKids(sh, x) = cs /\ CHeight(sh, x) = h}
  IN  IF hit = {} THEN NoNode ELSE CHOOSE x \in hit : TRUE

Place(x, sibs, p) == SubSeq(sibs, 1, p) \o <<x>> \o SubSeq(sibs, p + 1, Len(sibs))

RECURSIVE UpBase(_, _, _)
UpBase(x, l, row) ==      \* x: value so far, row: next row of layer l
  IF row > Len(l.path) THEN x
  ELSE UpBase(Name(Place(x, SubSeq(l.lemma, 2 + (row - 1) * (sh.b - 1), 1 + row * (sh.b - 1)), l.path[row]), row - 1), l, row + 1)

Last(seq) == seq[Len(seq)]
Front(seq) == SubSeq(seq, 1, Len(seq) - 1)

Exact == pc = "done" => layers = CProof(sh, i)
Closes ==
  pc = "done" =>
    /\ UpBase(layers[1].lemma[1], layers[1], 1) = Last(layers[1].lemma)
    /\ \A k \in 2..Len(layers) :
         Name(Place(Last(layers[k - 1].lemma), Front(layers[k].lemma), layers[k].path[1]), 1) = Last(layers[k].lemma)
    /\ Last(layers[Len(layers)].lemma) = CRoot(sh)
    /\ layers[1].lemma[1] = LeafId(sh, i)
PathIsDigits ==
  pc = "done" =>
    LET Val[k \in 0..Len(layers[1].path)] == IF k = 0 THEN 0 ELSE Val[k - 1] + layers[1].path[k] * Pow(sh.b, k - 1)
    IN  Val[Len(layers[1].path)] = LeafIn(sh, i)
=============================================================================
