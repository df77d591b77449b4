------------------------------ MODULE Session ------------------------------
(***************************************************************************)
(* Several trees in use at a time, their proofs kept and mixed.             *)
(*                                                                         *)
(* A slot holds a tree: its shape, where its nodes are kept, how many rows  *)
(* are missing there, and the version of the data it was last built from.   *)
(* Whatever was asked of whichever tree before, an answer depends on the     *)
(* slot's current version only; a proof that was handed out stays what it    *)
(* is when its tree is rebuilt or gone; and a proof put together from two    *)
(* proofs is accepted exactly if it is a proof of one tree.                  *)
(*                                                                         *)
(* The value of node id of a tree of version v is <<v, id>>; values of       *)
(* different versions differ.  Leaf i of version v is made from object        *)
(* <<v, i>>, in every tree.  Mixed proofs are judged by evaluating them    *)
(* over these values.                                                        *)
(***************************************************************************)
EXTENDS Compound, SequencesExt

CONSTANTS Setups,    \* {[es, mode, slots: sequence of [sh, how, r0]]}
          Plan,      \* "walk": random; "turns": every query of every tree in turn
          Steps,     \* length of a walk
          Vers       \* number of data versions

VARIABLES cfg, ver, held, log, what, done
vars == <<cfg, ver, held, log, what, done>>

K == 1..Len(cfg.slots)
Sh(k) == cfg.slots[k].sh
How(k) == cfg.slots[k].how
Single(k) == Sh(k).s = 0
Lacks(k) == How(k) \in {"v1", "v2", "later", "built"}
R0(k) == IF Lacks(k) THEN cfg.slots[k].r0 ELSE 0
Open == {k \in K : ver[k] # 0}

(* what must be answered; anything else may be refused, but never be answered wrongly *)
MustProve(k) == R0(k) = 0
Def(k) == DefaultRows(Sh(k).b, Sh(k).m)
MustCached(k, r) == /\ How(k) \notin {"vec", "mmap"}
                    /\ Answers(Sh(k).b, Sh(k).m, R0(k), IF r < 0 THEN Def(k) ELSE r)
Asks(k) == {-1, 0, 1, R0(k), R0(k) + 1, Def(k), 50}

-----------------------------------------------------------------------------
(* proofs with values instead of node numbers, and what they are worth *)
Valued(v, p) == [y \in 1..Len(p) |-> [p[y] EXCEPT !.lemma = [x \in 1..Len(p[y].lemma) |-> <<v, p[y].lemma[x]>>]]]
Nothing == <<0, 0>>
Above(sh, id) ==
  IF id < Parts(sh) * PLen(sh)
  THEN LET q == id \div PLen(sh) k == id % PLen(sh)
       IN  IF k # Root(sh.b, sh.m) THEN q * PLen(sh) + Parent(sh.b, sh.m, k) ELSE IF sh.s = 0 THEN -1 ELSE SubId(sh, q \div sh.s)
  ELSE IF sh.t > 0 /\ id < TopId(sh) THEN TopId(sh) ELSE -1
HashV(sh, q, h) ==
  IF \E x \in 1..Len(q) : q[x] = Nothing \/ q[x][1] # q[1][1] THEN Nothing
  ELSE LET ids == [x \in 1..Len(q) |-> q[x][2]]
           above == Above(sh, ids[1])
       IN  IF above >= 0 /\ CKids(sh, above) = ids /\ CHeight(sh, above) = h THEN <<q[1][1], above>> ELSE Nothing
Put(q, at, x) == SubSeq(q, 1, at) \o <<x>> \o SubSeq(q, at + 1, Len(q))
RECURSIVE Climb(_, _, _, _)
Climb(sh, l, cur, row) ==
  IF row > Len(l.path) THEN cur
  ELSE Climb(sh, l, HashV(sh, Put(SubSeq(l.lemma, 2 + (row - 1) * (sh.b - 1), 1 + row * (sh.b - 1)), l.path[row], cur), row - 1), row + 1)
RECURSIVE Good(_, _)
Good(sh, p) ==
  LET l == p[Len(p)]
      end == l.lemma[Len(l.lemma)]
  IN  IF Len(p) = 1 THEN Climb(sh, l, l.lemma[1], 1) = end
      ELSE LET in == p[Len(p) - 1].lemma[Len(p[Len(p) - 1].lemma)]
           IN  /\ Good(sh, SubSeq(p, 1, Len(p) - 1))
               /\ HashV(sh, Put(SubSeq(l.lemma, 1, Len(l.lemma) - 1), l.path[1], in), 1) = end

(* two proofs of one shape put together *)
Parts2 == {"root", "leaf", "sibling", "path", "lemma", "inner"}
Mixed(how, p, q) ==
  LET z == Len(p) IN
  CASE how = "root"    -> LET x == Len(p[z].lemma) IN [p EXCEPT ![z].lemma = [@ EXCEPT ![x] = q[z].lemma[x]]]
    [] how = "leaf"    -> [p EXCEPT ![1].lemma = [@ EXCEPT ![1] = q[1].lemma[1]]]
    [] how = "sibling" -> LET x == Len(p[1].lemma) - 1 IN [p EXCEPT ![1].lemma = [@ EXCEPT ![x] = q[1].lemma[x]]]
    [] how = "path"    -> [p EXCEPT ![1].path = q[1].path]
    [] how = "lemma"   -> [p EXCEPT ![z].lemma = q[z].lemma]
    [] how = "inner"   -> IF z = 1 THEN q ELSE SubSeq(q, 1, z - 1) \o <<p[z]>>
ProofOf(h) == Valued(h.v, CProof(Sh(h.k), h.i))
Partners(j) == {x \in 1..Len(held) : x # j /\ Sh(held[x].k) = Sh(held[j].k)}

-----------------------------------------------------------------------------
(* the calls; a query says of which version the answer has to be *)
Ask(k, v, i) == <<"prove", k, v, i, MustProve(k)>>
AskCached(k, v, i, r) == <<"cached", k, v, i, r, MustCached(k, r)>>

Log(e) == log' = Append(log, e)
Ver1(k) == ((k - 1) % Vers) + 1
Others(k) == (1..Vers) \ {ver[k]}
Keeps(k) == How(k) \in {"disk", "v1", "v2", "later"}         \* has files to open again

Has(k, id) == id < Sh(k).m \/ ~Lacks(k) \/ id >= CacheStart(Sh(k).b, Sh(k).m, R0(k))
Ids(k) == IF Single(k) THEN {id \in 0..(PLen(Sh(k)) - 1) : Has(k, id)} ELSE 0..(CLeafs(Sh(k)) - 1)
NodeAt(k, x) == IF Single(k) THEN x ELSE LeafId(Sh(k), x)

Hold(k, i) == held' = Append(held, [k |-> k, v |-> ver[k], i |-> i])

(* the slot chosen for the call *)
Slot1 == {what[2]}
(* does the mixed proof validate, and does it together with the object of the first proof's leaf *)
MixJudged(j, k, how) ==
  LET h == held[j] m == Mixed(how, ProofOf(h), ProofOf(held[k])) ok == Good(Sh(h.k), m)
  IN  <<ok, ok /\ m[1].lemma[1] = <<h.v, LeafId(Sh(h.k), h.i)>>>>
Do(w) ==
  \/ w = "prove" /\ \E k \in Slot1 : \E i \in 0..(CLeafs(Sh(k)) - 1) :
        /\ Log(Ask(k, ver[k], i)) /\ (IF MustProve(k) THEN Hold(k, i) ELSE UNCHANGED held) /\ UNCHANGED ver
  \/ w = "cached" /\ \E k \in Slot1 : \E i \in 0..(CLeafs(Sh(k)) - 1), r \in Asks(k) :
        /\ Log(AskCached(k, ver[k], i, r)) /\ (IF MustCached(k, r) THEN Hold(k, i) ELSE UNCHANGED held) /\ UNCHANGED ver
  \/ w = "read" /\ \E k \in Slot1 : \E x \in Ids(k) :
        Log(<<"read", k, ver[k], x, NodeAt(k, x)>>) /\ UNCHANGED <<ver, held>>
  \/ w = "range" /\ \E k \in Slot1 : Single(k) /\ \E lo \in 0..(Sh(k).m - 1), z \in {1, 2, 3, Sh(k).b, Sh(k).m \div 2, Sh(k).m} :
        /\ lo + z <= Sh(k).m
        /\ Log(<<"range", k, ver[k], lo, lo + z>>) /\ UNCHANGED <<ver, held>>
  \/ w = "look" /\ \E k \in Slot1 : Log(<<"look", k, ver[k]>>) /\ UNCHANGED <<ver, held>>
  \/ w = "refused" /\ \E k \in Slot1 : Log(<<"refused", k>>) /\ UNCHANGED <<ver, held>>
  \/ w = "build" /\ \E k \in Slot1 : \E v \in Others(k) :
        Log(<<"build", k, v>>) /\ ver' = [ver EXCEPT ![k] = v] /\ UNCHANGED held
  \/ w = "drop" /\ Cardinality(Open) > 1 /\ \E k \in Slot1 :
        Log(<<"drop", k>>) /\ ver' = [ver EXCEPT ![k] = 0] /\ UNCHANGED held
  \/ w = "reopen" /\ \E k \in Slot1 : Keeps(k) /\ Log(<<"reopen", k, ver[k]>>) /\ UNCHANGED <<ver, held>>
  \/ w = "validate" /\ \E j \in 1..Len(held) : Log(<<"validate", j>>) /\ UNCHANGED <<ver, held>>
  \/ w = "mix" /\ LET x == <<what[2], what[3]>> how == what[4] IN
        /\ Log(<<"mix", x[1], x[2], how>> \o MixJudged(x[1], x[2], how))
        /\ UNCHANGED <<ver, held>>
  \/ w = "object" /\ \E j, g \in 1..Len(held) :
        (* a kept proof with the object of the leaf of a kept proof: its own, or another one *)
        Log(<<"object", j, held[g].v, held[g].i, held[j].v = held[g].v /\ held[j].i = held[g].i>>) /\ UNCHANGED <<ver, held>>
  \/ w = "attach" /\ \E k \in Slot1 : Log(<<"attach", k, ver[k]>>) /\ UNCHANGED <<ver, held>>
  \/ w = "threads" /\ Log(<<"threads", [k \in K |-> ver[k]]>>) /\ UNCHANGED <<ver, held>>
Able(w, k) ==
  CASE w \in {"validate", "object"} -> k = 1 /\ held # <<>>
    [] w = "mix" -> k = 1 /\ \E j \in 1..Len(held) : Partners(j) # {}
    [] w = "threads" -> k = 1
    [] w = "build" -> TRUE
    [] w = "attach" -> k \in Open /\ Single(k) /\ How(k) \in {"v2", "later", "built"}
    [] w = "range" -> k \in Open /\ Single(k)
    [] w = "reopen" -> k \in Open /\ Keeps(k)
    [] w = "drop" -> k \in Open /\ Cardinality(Open) > 1
    [] OTHER -> k \in Open

(* what comes next, with some calls more often than others *)
Classes == {"prove", "cached"} \X (1..4) \cup {"mix", "validate", "object"} \X (1..5) \cup {"build", "read"} \X (1..2)
           \cup {<<w, 1>> : w \in {"range", "look", "refused", "drop", "reopen", "attach", "threads"}}

(* every leaf of every tree in turn, each way of asking, for several rounds of rebuilding *)
Most == CHOOSE x \in {CLeafs(Sh(k)) : k \in K} : \A k \in K : CLeafs(Sh(k)) <= x
V(k, round) == ((k + round) % Vers) + 1
Round(round) ==
  LET build == [k \in K |-> <<"build", k, V(k, round)>>]
      each(f(_, _)) == FlattenSeq([i \in 1..Most |-> FlattenSeq([k \in K |-> IF i <= CLeafs(Sh(k)) THEN f(k, i - 1) ELSE <<>>])])
      plain(k, i) == <<Ask(k, V(k, round), i)>>
      cached(k, i) == LET rs == SetToSortSeq(Asks(k), <) IN [x \in 1..Len(rs) |-> AskCached(k, V(k, round), i, rs[x])]
      both(k, i) == cached(k, i) \o plain(k, i)
      (* the same request to all trees, then the next *)
      byAsk == FlattenSeq([x \in 1..3 |-> each(LAMBDA k, i : <<AskCached(k, V(k, round), i, <<R0(k), -1, R0(k) + 1>>[x])>>)])
  IN  build \o (IF round % 2 = 1 THEN byAsk \o each(plain) ELSE each(both))
Turns == Round(1) \o Round(2) \o Round(3) \o <<<<"all">>>>

Init == /\ cfg \in Setups
        /\ held = <<>> /\ what = <<>>
        /\ IF Plan = "turns"
           THEN ver = [k \in 1..Len(cfg.slots) |-> V(k, 3)] /\ log = Turns /\ done = TRUE
           ELSE ver = [k \in 1..Len(cfg.slots) |-> Ver1(k)] /\ log = [k \in 1..Len(cfg.slots) |-> <<"build", k, Ver1(k)>>] /\ done = FALSE
Choose == /\ Len(log) < Steps /\ UNCHANGED <<cfg, ver, held, log, done>>
          /\ \/ what = <<>> /\ \E x \in Classes, k \in K : Able(x[1], k) /\ what' = <<x[1], k, x[2]>>
             \/ what # <<>> /\ what[1] = "mix" /\ Len(what) = 3 /\ \E j \in 1..Len(held), how \in Parts2 : Partners(j) # {} /\ what' = <<"mix", j, 0, how>>
             \/ what # <<>> /\ what[1] = "mix" /\ Len(what) = 4 /\ what[3] = 0 /\ \E j \in Partners(what[2]) : what' = [what EXCEPT ![3] = j]
Act == what # <<>> /\ (what[1] = "mix" => Len(what) = 4 /\ what[3] # 0) /\ Do(what[1]) /\ what' = <<>> /\ UNCHANGED <<cfg, done>>
Finish == what = <<>> /\ ~done /\ Len(log) = Steps /\ done' = TRUE /\ log' = Append(log, <<"all">>) /\ UNCHANGED <<cfg, ver, held, what>>
Next == Choose \/ Act \/ Finish
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* honest proofs are worth something, and nothing else that can be mixed from them is, unless it is a proof itself *)
Honest == done => \A j \in 1..Len(held) : Good(Sh(held[j].k), ProofOf(held[j]))
OnlyProofs ==
  done => \A x \in 1..Len(log) : log[x][1] = "mix" =>
    LET e == log[x] h == held[e[2]] g == held[e[3]]
        m == Mixed(e[4], ProofOf(h), ProofOf(g))
    IN  e[5] = (\E v \in {h.v, g.v}, i \in {h.i, g.i} : m = Valued(v, CProof(Sh(h.k), i)))

Compact(layers) == [k \in 1..Len(layers) |-> <<layers[k].sub, layers[k].top, layers[k].lemma, layers[k].path>>]
Tops(sh) == LET lo == Parts(sh) * PLen(sh) IN [x \in 1..(NodeCount(sh) - lo) |-> <<lo + x - 1, CHeight(sh, lo + x - 1), CKids(sh, lo + x - 1)>>]
Slot(k) ==
  LET sh == Sh(k) IN
  [b |-> sh.b, n |-> sh.m, s |-> sh.s, t |-> sh.t, how |-> How(k), r0 |-> R0(k), cs |-> CacheStart(sh.b, sh.m, R0(k)),
   rows |-> Layout(sh.b, sh.m), parts |-> Parts(sh), tops |-> Tops(sh), leafs |-> CLeafs(sh), len |-> CLen(sh), rc |-> CRows(sh),
   root |-> CRoot(sh), ids |-> [i \in 1..CLeafs(sh) |-> LeafId(sh, i - 1)],
   proofs |-> [i \in 1..CLeafs(sh) |-> <<i - 1, Compact(CProof(sh, i - 1))>>],
   must |-> MustProve(k),
   refused |-> <<CLeafs(sh), CLeafs(sh) + 1, CLeafs(sh) + sh.m, 2 * CLeafs(sh) + 3, CLen(sh), CLen(sh) + 1, 2000000000>>]
Emit == done => Say([k |-> "session", es |-> cfg.es, mode |-> cfg.mode, slots |-> [k \in K |-> Slot(k)], steps |-> log])
=============================================================================
