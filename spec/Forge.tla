-------------------------------- MODULE Forge --------------------------------
(***************************************************************************)
(* The adversary against proofs.  It starts from the honest proof of some   *)
(* leaf and edits it: any element, path entry, layer or arity, in any       *)
(* order, with values taken from the tree, from other data or made up, and  *)
(* it may recompute roots.  The verdict of every proof reached is computed  *)
(* from the definition: the chain of hashes has to reproduce the roots.     *)
(* Hashes are free terms, so two values are equal only if they were made    *)
(* from equal parts in the same way (an ideal hash function).               *)
(***************************************************************************)
EXTENDS Compound, SequencesExt

CONSTANTS Shapes,
          Leaf0,      \* "all" or "edges": the leaves to start from
          Vals,       \* "distinct": all objects differ; "pairs": neighbours are equal
          Mode,       \* algorithm of the tree: 0 ignores heights, 1 depends on them
          ValMode,    \* algorithm used to validate
          MaxMoves,
          Rich,       \* TRUE: also structural moves and the full pool of values
          Plan        \* "free": any moves; "careless": one move, then a root that a careless validator accepts

VARIABLES sh, i, layers, moves
vars == <<sh, i, layers, moves>>

-----------------------------------------------------------------------------
(* values: codes [t, v, c] *)
N(k) == [t |-> "n", v |-> k, c |-> <<>>]           \* node k of the tree
X(k) == [t |-> "x", v |-> k, c |-> <<>>]           \* a made up value
LM(m, o) == [t |-> "l", v |-> o, c |-> <<m>>]      \* leaf hash of object o under algorithm m
L(o) == LM(ValMode, o)                             \* (the adversary uses the validator's)
Y(k, x) == [t |-> "y", v |-> k, c |-> <<x>>]       \* a value next to x: nearly all of its bytes are those of x (k says which are not)
H(h, cs) == [t |-> "h", v |-> h, c |-> cs]         \* hash computed by the adversary

ObjOf(k) == IF Vals = "pairs" THEN 100 + k \div 2 ELSE 1 + k    \* object behind leaf k

(* the tag of an interior hash: which algorithm and, for mode 1, the height *)
Tag(mode, h) == IF mode = 0 THEN 0 ELSE 1 + h

NodeTerms(s) ==
  LET f[id \in 0..(NodeCount(s) - 1)] ==
        IF IsLeaf(s, id) THEN LM(Mode, ObjOf((id \div PLen(s)) * s.m + (id % PLen(s))))
        ELSE LET ks == CKids(s, id)
             IN  [t |-> "T", v |-> Tag(Mode, CHeight(s, id)), c |-> [x \in 1..Len(ks) |-> f[ks[x]]]]
  IN  f
NT == [s \in Shapes |-> NodeTerms(s)]

RECURSIVE Term(_)
Term(code) ==
  CASE code.t = "n" -> NT[sh][code.v]
    [] code.t = "y" -> [code EXCEPT !.c = <<Term(code.c[1])>>]
    [] code.t = "h" -> [t |-> "T", v |-> Tag(ValMode, code.v), c |-> [x \in 1..Len(code.c) |-> Term(code.c[x])]]
    [] OTHER -> code

-----------------------------------------------------------------------------
(* the verdict *)
Lst(seq) == seq[Len(seq)]
Frn(seq) == SubSeq(seq, 1, Len(seq) - 1)
Place(x, sibs, p) == SubSeq(sibs, 1, p) \o <<x>> \o SubSeq(sibs, p + 1, Len(sibs))

ArityOf(l) == IF l.top > 0 THEN l.top ELSE l.sub

BaseShape(l) == /\ Len(l.path) >= 1
                /\ Len(l.lemma) = 2 + (sh.b - 1) * Len(l.path)
                /\ \A p \in 1..Len(l.path) : l.path[p] < sh.b
LayerShape(l) == Len(l.lemma) = ArityOf(l) /\ Len(l.path) = 1 /\ l.path[1] < ArityOf(l)

(* the code of the value the base layer hashes to *)
RECURSIVE UpCode(_, _, _)
UpCode(x, l, row) ==
  IF row > Len(l.path) THEN x
  ELSE UpCode(H(row - 1, Place(x, SubSeq(l.lemma, 2 + (row - 1) * (sh.b - 1), 1 + row * (sh.b - 1)), l.path[row])), l, row + 1)
Closing(ls, k) ==
  IF k = 1 THEN UpCode(ls[1].lemma[1], ls[1], 1)
  ELSE H(1, Place(Lst(ls[k - 1].lemma), Frn(ls[k].lemma), ls[k].path[1]))

Formed(ls, k) ==
  IF k = 1 THEN ls[1].sub = 0 /\ ls[1].top = 0 /\ BaseShape(ls[1])
  ELSE ls[k].sub > 0 /\ LayerShape(ls[k])   \* a top layer lies above sub-tree layers

Accept(ls) == \A k \in 1..Len(ls) : Formed(ls, k) /\ Term(Closing(ls, k)) = Term(Lst(ls[k].lemma))

-----------------------------------------------------------------------------
Honest(s, x) == LET p == CProof(s, x) IN
  [k \in 1..Len(p) |-> [p[k] EXCEPT !.lemma = [y \in 1..Len(p[k].lemma) |-> N(p[k].lemma[y])]]]

Edges(s) == {0, s.m - 1, CLeafs(s) - 1, CLeafs(s) \div 2}

(* evaluated once: honest proofs, and facts about the shapes *)
HP == [s \in Shapes |-> [x \in 0..(CLeafs(s) - 1) |-> Honest(s, x)]]
Facts == [s \in Shapes |-> [root |-> CRoot(s), depth |-> Depth(s.b, s.m), layers |-> Len(CProof(s, 0)),
            others |-> IF Rich THEN 0..(CLeafs(s) - 1) ELSE Edges(s),
            pool |-> {X(1), L(7777)} \cup
                     (IF Rich \/ NodeCount(s) <= 8 THEN {N(k) : k \in 0..(NodeCount(s) - 1)}
                      ELSE {N(k) : k \in {0, 1, s.m, CRoot(s), PLen(s) - 1, NodeCount(s) - 2}})]]

Init ==
  /\ sh \in Shapes
  /\ i \in IF Leaf0 = "all" THEN 0..(CLeafs(sh) - 1) ELSE Edges(sh)
  /\ layers = HP[sh][i]
  /\ moves = 0

Pool == Facts[sh].pool

Put(k, l) == layers' = [layers EXCEPT ![k] = l]

SetLemma == \E k \in 1..Len(layers) : \E p \in 1..Len(layers[k].lemma) : \E x \in Pool :
              /\ x # layers[k].lemma[p]
              /\ Put(k, [layers[k] EXCEPT !.lemma[p] = x])
(* change a value as little as possible *)
Tweaks == IF Rich \/ MaxMoves = 1 THEN 0..8 ELSE {5}
Tweak == \E k \in 1..Len(layers) : \E p \in 1..Len(layers[k].lemma) : \E y \in Tweaks :
              /\ layers[k].lemma[p].t # "y"
              /\ Put(k, [layers[k] EXCEPT !.lemma[p] = Y(y, layers[k].lemma[p])])
SwapLemma == \E k \in 1..Len(layers) : \E p, q \in 1..Len(layers[k].lemma) :
              /\ p < q
              /\ Put(k, [layers[k] EXCEPT !.lemma[p] = layers[k].lemma[q], !.lemma[q] = layers[k].lemma[p]])
DropLemma == \E k \in 1..Len(layers) : \E p \in 1..Len(layers[k].lemma) :
              Put(k, [layers[k] EXCEPT !.lemma = Without(layers[k].lemma, p)])
InsLemma == \E k \in 1..Len(layers) : \E p \in 0..Len(layers[k].lemma) : \E x \in {X(1), N(0), N(Facts[sh].root)} :
              Put(k, [layers[k] EXCEPT !.lemma = SubSeq(layers[k].lemma, 1, p) \o <<x>> \o SubSeq(layers[k].lemma, p + 1, Len(layers[k].lemma))])
(* a whole row of siblings or several copies of the root at the end: lengths that look plausible *)
PadLemma == \E k \in 1..Len(layers) : \E x \in {N(Facts[sh].root), X(2)} : \E m \in {sh.b - 1, sh.b, 2 * (sh.b - 1)} :
              Put(k, [layers[k] EXCEPT !.lemma = layers[k].lemma \o [y \in 1..m |-> x]])
SetPath == \E k \in 1..Len(layers) : \E p \in 1..Len(layers[k].path) :
           \E v \in 0..(Max(sh.b, ArityOf(layers[k])) + 1) \cup {1000000} :
              /\ v # layers[k].path[p]
              /\ Put(k, [layers[k] EXCEPT !.path[p] = v])
(* Numbers beyond 32 bits: Alias + 16 * j + p stands for the j-th of the numbers p + 2^8, 2^16, 2^31, 2^32, 2^63, *)
(* which all look like p to code that cuts off bits.                                                            *)
Alias == 2000000000
Look(p) == IF p >= Alias THEN p % 16 ELSE p
AliasPath == \E k \in 1..Len(layers) : \E p \in 1..Len(layers[k].path) : \E j \in (IF Rich \/ MaxMoves = 1 THEN 0..4 ELSE {3}) :
              /\ layers[k].path[p] < 16
              /\ Put(k, [layers[k] EXCEPT !.path[p] = Alias + 16 * j + layers[k].path[p]])
SwapPath == \E k \in 1..Len(layers) : \E p, q \in 1..Len(layers[k].path) :
              /\ p < q
              /\ Put(k, [layers[k] EXCEPT !.path[p] = layers[k].path[q], !.path[q] = layers[k].path[p]])
(* recompute the root of a layer so that the layer closes again *)
Rehash == \E k \in 1..Len(layers) :
              /\ Formed(layers, k)
              /\ k > 1 => Len(layers[k - 1].lemma) > 0
              /\ Put(k, [layers[k] EXCEPT !.lemma[Len(layers[k].lemma)] = Closing(layers, k)])
RECURSIVE Reclose(_, _)
Reclose(ls, k) == IF k > Len(ls) THEN ls
                  ELSE Reclose([ls EXCEPT ![k].lemma[Len(ls[k].lemma)] = Closing(ls, k)], k + 1)
RehashAll == /\ Len(layers) > 1
             /\ \A k \in 1..Len(layers) : Formed(layers, k)
             /\ layers' = Reclose(layers, 1)
(* a tree in which one leaf is next to the honest one *)
PlantLeaf == /\ Len(layers) > 0 /\ \A k \in 1..Len(layers) : Formed(layers, k)
             /\ layers[1].lemma[1].t # "y"
             /\ \E y \in Tweaks : layers' = Reclose([layers EXCEPT ![1].lemma[1] = Y(y, layers[1].lemma[1])], 1)
(* leave out the lowest row: start from the node above the leaf *)
CutBottom == LET l == layers[1] IN
              /\ BaseShape(l) /\ Len(l.path) > 1
              /\ Put(1, [l EXCEPT !.lemma = <<H(0, Place(l.lemma[1], SubSeq(l.lemma, 2, sh.b), l.path[1]))>> \o SubSeq(l.lemma, sh.b + 1, Len(l.lemma)),
                                  !.path = Tail(l.path)])
(* leave out the highest row: end at a node below the root *)
CutTop == LET l == layers[1] m == Len(l.path) IN
              /\ BaseShape(l) /\ m > 1
              /\ \E keep \in {TRUE, FALSE} :
                 LET short == [l EXCEPT !.lemma = SubSeq(l.lemma, 1, 1 + (m - 1) * (sh.b - 1)) \o <<Lst(l.lemma)>>, !.path = Frn(l.path)]
                 IN  Put(1, IF keep THEN short ELSE [short EXCEPT !.lemma[Len(short.lemma)] = UpCode(short.lemma[1], short, 1)])
(* one more row on top *)
AddTop == LET l == layers[1] IN
              /\ BaseShape(l) /\ Len(l.path) <= 3
              /\ \E p \in {0, sh.b - 1} : \E close \in {TRUE, FALSE} :
                 LET sibs == [y \in 1..(sh.b - 1) |-> X(1)]
                     long == [l EXCEPT !.lemma = Frn(l.lemma) \o sibs \o <<Lst(l.lemma)>>, !.path = Append(l.path, p)]
                 IN  Put(1, IF close THEN [long EXCEPT !.lemma[Len(long.lemma)] = UpCode(long.lemma[1], long, 1)] ELSE long)
(* take the inner or the outer layers from the proof of another leaf *)
Splice == /\ Len(layers) = Facts[sh].layers /\ (Len(layers) > 1 \/ Rich)
          /\ \E x \in Facts[sh].others : \E k \in 1..Len(layers) : \E what \in {"all", "lemma", "path"} :
               LET h == HP[sh][x] IN
               /\ x # i
               /\ Put(k, CASE what = "all" -> h[k]
                           [] what = "lemma" -> [layers[k] EXCEPT !.lemma = h[k].lemma]
                           [] what = "path" -> [layers[k] EXCEPT !.path = h[k].path])
(* layers dropped, doubled or declared with other arities *)
DropLayer == /\ Len(layers) > 1
             /\ \E k \in 1..Len(layers) : layers' = Without(layers, k)
DupLayer == /\ Len(layers) \in {2, 3}
            /\ \E k \in 2..Len(layers) : layers' = SubSeq(layers, 1, k) \o <<layers[k]>> \o SubSeq(layers, k + 1, Len(layers))
(* a proof inside a proof that has no place for it: below the base layer or between the layers; *)
(* what it lies in may then start with anything                                              *)
Nest == /\ Len(layers) <= 3
        /\ \E x \in {i} \cup (IF Rich THEN Edges(sh) ELSE {}) : \E j \in 1..Facts[sh].layers : \E k \in 0..Len(layers) : \E junk \in {TRUE, FALSE} :
             LET ls == SubSeq(layers, 1, k) \o <<HP[sh][x][j]>> \o SubSeq(layers, k + 1, Len(layers)) IN
             /\ junk => (k < Len(layers) /\ Len(layers[k + 1].lemma) > 0)
             /\ layers' = IF junk THEN [ls EXCEPT ![k + 2].lemma[1] = X(1)] ELSE ls
Arities == {0, 1, 2, 3, 5}
SetArity == \E k \in 1..Len(layers) : \E s \in Arities : \E t \in {0, 1, 2, 3} :
              /\ <<s, t>> # <<layers[k].sub, layers[k].top>>
              /\ Put(k, [layers[k] EXCEPT !.sub = s, !.top = t])

-----------------------------------------------------------------------------
(* Careless validators: they take an index modulo the arity, skip the check that the element was    *)
(* placed, ignore the index or the height, count the rows by the path or by the lemma, hash a child *)
(* too few, use the leaf in place of a root, ...  The adversary computes the root such a validator   *)
(* arrives at and closes the layers above; by the definition these proofs are (mostly) to be refused. *)
Ways == {<<p, "is", "is">> : p \in {"is", "mod", "trunc", "clamp", "zero", "skip", "noself", "left", "right", "mirror", "reverse", "fewer"}}
        \cup {<<"is", h, "is">> : h \in {"zero", "up", "one", "two"}}
        \cup {<<"is", "is", x>> : x \in {"item", "base", "late"}}
SibsAt(l, from, a) == SubSeq(l.lemma, from, from + a - 2)
(* the children of one row; x: the value from below, p: its index, a: the arity *)
Careless(l, from, a, x, p, how) ==
  LET sibs == SibsAt(l, from, a) IN
  CASE how = "mod" -> Place(x, sibs, p % a)
    [] how = "trunc" -> Place(x, sibs, Min(Look(p), a - 1))
    [] how = "clamp" -> Place(x, sibs, Min(p, a - 1))
    [] how = "skip" /\ p >= a -> IF from + a - 1 < Len(l.lemma) THEN SubSeq(l.lemma, from, from + a - 1) ELSE sibs
    [] how = "noself" /\ p >= a -> sibs
    [] how = "left" -> Place(x, sibs, 0)
    [] how = "right" -> Place(x, sibs, a - 1)
    [] how = "mirror" -> Place(x, sibs, IF p < a THEN a - 1 - p ELSE 0)
    [] how = "reverse" -> Place(x, Reverse(sibs), IF p < a THEN p ELSE 0)
    [] how = "fewer" /\ a > 1 -> Frn(Place(x, sibs, IF p < a THEN p ELSE 0))
    [] OTHER -> Place(x, sibs, IF p < a THEN p ELSE 0)
CarelessHeight(row, how) == CASE how = "zero" -> 0 [] how = "one" -> 1 [] how = "two" -> 2 [] how = "up" -> row [] OTHER -> row - 1
RECURSIVE CarelessUp(_, _, _, _, _)
CarelessUp(x, l, row, rows, w) ==
  IF row > rows THEN x
  ELSE CarelessUp(H(CarelessHeight(row, w[2]), Careless(l, 2 + (row - 1) * (sh.b - 1), sh.b, x, IF row <= Len(l.path) THEN l.path[row] ELSE 0, w[1])), l, row + 1, rows, w)
(* w[3] = "late" for the base layer: the rows of the lemma are counted, not those of the path *)
CarelessRows(l, w) == IF w[3] = "late" THEN (Len(l.lemma) - 2) \div (sh.b - 1) ELSE Len(l.path)
CarelessRoot(ls, k, w) ==
  IF k = 1 THEN CarelessUp(ls[1].lemma[1], ls[1], 1, CarelessRows(ls[1], w), w)
  ELSE LET a == ArityOf(ls[k])
           x == CASE w[3] = "item" -> ls[1].lemma[1] [] w[3] = "base" -> Lst(ls[1].lemma) [] OTHER -> Lst(ls[k - 1].lemma)
           p == IF Len(ls[k].path) = 0 THEN 0 ELSE IF w[3] = "late" THEN Lst(ls[k].path) ELSE ls[k].path[1]
       IN  H(CarelessHeight(2, w[2]), Careless(ls[k], 1, a, x, p, w[1]))
Possible(ls, k, w) == /\ \A j \in 1..Len(ls) : Len(ls[j].lemma) > 0
                      /\ IF k = 1 THEN Len(ls[1].lemma) >= 2 + CarelessRows(ls[1], w) * (sh.b - 1) /\ CarelessRows(ls[1], w) >= 1
                         ELSE ArityOf(ls[k]) >= 1 /\ Len(ls[k].lemma) >= ArityOf(ls[k])
RECURSIVE CloseAbove(_, _)
CloseAbove(ls, k) == IF k > Len(ls) \/ ~Formed(ls, k) THEN ls
                     ELSE CloseAbove([ls EXCEPT ![k].lemma[Len(ls[k].lemma)] = Closing(ls, k)], k + 1)
CarelessClose == \E k \in 1..Len(layers) : \E w \in Ways :
                   /\ Possible(layers, k, w)
                   /\ layers' = CloseAbove([layers EXCEPT ![k].lemma[Len(layers[k].lemma)] = CarelessRoot(layers, k, w)], k + 1)
(* the edits before that: those that leave a careless validator with something to compute *)
Spoil == \/ SetPath \/ AliasPath \/ SwapLemma \/ InsLemma \/ PadLemma \/ DropLemma \/ CutTop \/ AddTop
         \/ \E k \in 1..Len(layers) : \E p \in 1..Len(layers[k].lemma) : Put(k, [layers[k] EXCEPT !.lemma[p] = X(1)])
         \/ \E k \in 1..Len(layers) : Put(k, [layers[k] EXCEPT !.path = Append(layers[k].path, 0)])
         \/ \E k \in 1..Len(layers) : Len(layers[k].path) > 1 /\ Put(k, [layers[k] EXCEPT !.path = Frn(layers[k].path)])
         \/ (sh.s > 0 /\ SetArity)

Move == \/ SetLemma \/ Tweak \/ PlantLeaf \/ AliasPath \/ SwapLemma \/ DropLemma \/ InsLemma \/ PadLemma \/ SetPath \/ SwapPath \/ Rehash \/ RehashAll
        \/ CutBottom \/ CutTop \/ AddTop \/ Splice \/ Nest
        \/ (sh.s > 0 /\ (DropLayer \/ DupLayer \/ SetArity))

Next == /\ CASE Plan = "free" -> moves < MaxMoves /\ Move /\ moves' = moves + 1
             [] Plan = "careless" -> \/ moves = 0 /\ MaxMoves > 1 /\ Spoil /\ moves' = 1
                                     \/ moves < 2 /\ CarelessClose /\ moves' = 2
        /\ UNCHANGED <<sh, i>>
Spec == Init /\ [][Next]_vars

View == <<sh, i, layers>>

-----------------------------------------------------------------------------
(* What the definition implies (checked on every proof the adversary reaches) *)
HonestAccepted(ok) == moves = 0 => (ok <=> Mode = ValMode)
(* with the root fixed to the tree's root (the verifier knows it) and a height-dependent algorithm, *)
(* a single proof that is accepted and as long as the tree is deep proves a leaf of the tree at its place *)
Sound(ok) ==
  (Mode = 1 /\ ValMode = 1 /\ ok /\ Len(layers) = (IF sh.t > 0 THEN 3 ELSE IF sh.s > 0 THEN 2 ELSE 1)
     /\ Len(layers[1].path) = Facts[sh].depth
     /\ (sh.s > 0 => ArityOf(layers[2]) = sh.s) /\ (sh.t > 0 => ArityOf(layers[3]) = sh.t)
     /\ Term(Lst(Lst(layers).lemma)) = NT[sh][Facts[sh].root])
  => LET digits == [p \in 1..Len(layers[1].path) |-> layers[1].path[p]]
         Val[k \in 0..Len(digits)] == IF k = 0 THEN 0 ELSE Val[k - 1] + digits[k] * Pow(sh.b, k - 1)
         q == IF sh.s = 0 THEN 0 ELSE layers[2].path[1] + (IF sh.t = 0 THEN 0 ELSE sh.s * layers[3].path[1])
     IN  Term(layers[1].lemma[1]) = NT[sh][LeafId(sh, q * sh.m + Val[Len(digits)])]
Malformed(ok) == (\E k \in 1..Len(layers) : ~Formed(layers, k)) => ~ok

RECURSIVE Enc(_)
Enc(code) == CASE code.t = "n" -> code.v
               [] code.t = "y" -> <<"y", code.v, Enc(code.c[1])>>
               [] code.t = "h" -> <<"h", code.v, [x \in 1..Len(code.c) |-> Enc(code.c[x])]>>
               [] OTHER -> <<code.t, code.v>>
Objs == <<ObjOf(i), ObjOf((i + 1) % CLeafs(sh)), ObjOf((i + CLeafs(sh) \div 2) % CLeafs(sh)), 7777, 5555>>
(* with data: the proof is good and its leaf is the leaf hash of the object *)
Emit(ok) == Say([k |-> "forge", b |-> sh.b, n |-> sh.m, s |-> sh.s, t |-> sh.t, i |-> i, mode |-> Mode, vmode |-> ValMode, vals |-> Vals,
             mv |-> moves,
             layers |-> [k \in 1..Len(layers) |-> <<layers[k].sub, layers[k].top, [y \in 1..Len(layers[k].lemma) |-> Enc(layers[k].lemma[y])], layers[k].path>>],
             ok |-> ok,
             leaf |-> Len(layers[1].lemma) > 0,
             data |-> IF Len(layers[1].lemma) = 0 THEN <<>>
                      ELSE LET t0 == Term(layers[1].lemma[1]) IN [y \in 1..Len(Objs) |-> <<Objs[y], ok /\ t0 = L(Objs[y])>>]])

(* the verdict on the proof of this state, its consequences, and the line for the harness *)
Judge == LET ok == TLCEval(Accept(layers)) IN
         /\ Assert(HonestAccepted(ok), <<"an honest proof has the wrong verdict", sh, i>>)
         /\ Assert(Sound(ok), <<"a forged proof is accepted", sh, i, layers>>)
         /\ Assert(Malformed(ok), <<"a malformed proof is accepted", sh, i, layers>>)
         /\ Emit(ok)
=============================================================================
