------------------------------- MODULE ParBuild -------------------------------
(***************************************************************************)
(* The parallel build (C03).  A pool of workers carries out the population   *)
(* of the leaf row, block by block, and then each row, chunk by chunk.  A     *)
(* worker takes any piece nobody has taken, reads its input, hashes it, and    *)
(* writes the result; between the read and the write every other worker may   *)
(* do anything.  The next phase begins when all pieces are written.            *)
(*   kind "lock": one writer at a time copies its piece and extends the length *)
(*   kind "map" : pieces are written through a shared map of the file;         *)
(*                the length is set when the row is complete                   *)
(*   kind "lc"  : as "map", and a row to be discarded is cut off the front of   *)
(*                the file when the row above it is complete                    *)
(* Checked for every interleaving: the result is the tree, nothing but the      *)
(* tree's nodes is ever written, no cell is written twice, and what a worker     *)
(* reads is complete.  The order in which pieces were written is recorded: the   *)
(* harness makes the real workers finish in that order.                        *)
(***************************************************************************)
EXTENDS MerkleCore, SequencesExt

CONSTANTS Cases,      \* {[b, n, kind, r, w, chunk, block]}: arity, leaves, store, discarded rows, workers, pieces
          Real,       \* nodes per real chunk: the harness multiplies (0: do not emit)
          Free        \* {<<b, n, kind, r, w>>}: built on w workers without steering
VARIABLES c, file, len, level, width, lni, todo, run, count, order, pc
vars == <<c, file, len, level, width, lni, todo, run, count, order, pc>>

Blank == -2
Idle == <<>>
cis == CacheStart(c.b, c.n, c.r)
Workers == 1..c.w
Pieces(k, size) == {x \in 0..(k - 1) : x % size = 0}

Init == /\ c \in Cases
        /\ file = [x \in 1..TreeLen(c.b, c.n) |-> Blank]
        /\ len = 0 /\ level = 0 /\ width = c.n /\ lni = 0
        /\ todo = Pieces(c.n, c.block)
        /\ run = [w \in 1..c.w |-> Idle]
        /\ count = [x \in 0..(TreeLen(c.b, c.n) - 1) |-> 0]
        /\ order = <<<<>>>>
        /\ pc = "populate"

ReadStart == IF level = 0 THEN 0
             ELSE IF c.kind = "lc" THEN (IF lni < cis THEN 0 ELSE lni - cis)
             ELSE lni
WriteStart == IF level = 0 THEN c.n
              ELSE IF c.kind = "lc" THEN (IF lni < cis THEN width ELSE lni + width - cis)
              ELSE lni + width

(* take a piece, read its input and hash it *)
Take == \E w \in Workers, off \in todo :
    /\ run[w] = Idle
    /\ \A v \in Workers : v < w => run[v] # Idle       \* workers are interchangeable
    /\ pc \in {"populate", "row"}
    /\ LET nodes == IF pc = "populate"
                    THEN Iota(off, Min(off + c.block, c.n))
                    ELSE LET size == Min(c.chunk, width - off)
                         IN  [i \in 1..(size \div c.b) |->
                                HashName(c.b, c.n, [k \in 1..c.b |-> file[ReadStart + off + (i - 1) * c.b + k]], level)]
           dst == IF pc = "populate" THEN off ELSE WriteStart + off \div c.b
       IN  run' = [run EXCEPT ![w] = <<off, dst, nodes>>]
    /\ todo' = todo \ {off}
    /\ UNCHANGED <<c, file, len, level, width, lni, count, order, pc>>

(* write it *)
Put == \E w \in Workers :
    /\ run[w] # Idle
    /\ LET dst == run[w][2] nodes == run[w][3]
       IN  /\ file' = [p \in 1..Len(file) |-> IF p > dst /\ p <= dst + Len(nodes) THEN nodes[p - dst] ELSE file[p]]
           /\ len' = IF pc = "populate" \/ c.kind = "lock" THEN Max(len, dst + Len(nodes)) ELSE len
           /\ count' = [x \in DOMAIN count |-> IF x \in Range(nodes) THEN count[x] + 1 ELSE count[x]]
    /\ order' = [order EXCEPT ![Len(order)] = Append(@, run[w][1])]
    /\ run' = [run EXCEPT ![w] = Idle]
    /\ UNCHANGED <<c, level, width, lni, todo, pc>>

Barrier == todo = {} /\ \A w \in Workers : run[w] = Idle
Populated == /\ pc = "populate" /\ Barrier /\ pc' = "row"
             /\ todo' = Pieces(c.n, c.chunk) /\ order' = Append(order, <<>>)
             /\ UNCHANGED <<c, file, len, level, width, lni, run, count>>
RowDone ==
    /\ pc = "row" /\ Barrier
    /\ file' = IF c.kind = "lc" /\ lni < cis THEN SubSeq(file, width + 1, Len(file)) ELSE file
    /\ lni' = lni + width /\ level' = level + 1 /\ width' = width \div c.b
    /\ len' = IF c.kind = "lc" THEN lni' + (IF width' = 1 THEN 1 ELSE 0) ELSE IF c.kind = "map" THEN len + width' ELSE len
    /\ IF width' = 1 THEN pc' = "done" /\ todo' = {} /\ UNCHANGED order
       ELSE pc' = "row" /\ todo' = Pieces(width', c.chunk) /\ order' = Append(order, <<>>)
    /\ UNCHANGED <<c, run, count>>
Next == Take \/ Put \/ Populated \/ RowDone
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

OnlyNodes == \A p \in 1..Len(file) : file[p] # NoNode
Once == \A x \in DOMAIN count : count[x] <= 1
Disjoint == \A v, w \in Workers : v # w /\ run[v] # Idle /\ run[w] # Idle =>
               run[v][2] + Len(run[v][3]) <= run[w][2] \/ run[w][2] + Len(run[w][3]) <= run[v][2]
Exact == pc = "done" => /\ len = TreeLen(c.b, c.n) /\ level + 1 = Rows(c.b, c.n)
                        /\ file = IF c.kind = "lc" THEN Iota(cis, TreeLen(c.b, c.n)) ELSE Iota(0, TreeLen(c.b, c.n))
Ends == <>(pc = "done")

NoOrder == <<c, file, len, level, width, lni, todo, run, count, pc>>   \* a view without the record
(* piece numbers in the order in which they were written, phase by phase *)
Numbers(ph) == LET size == IF ph = 1 THEN c.block ELSE c.chunk IN [x \in 1..Len(order[ph]) |-> order[ph][x] \div size]
RealLeaves == IF c.block < c.n THEN (c.n \div c.block) * 64 * Real ELSE (c.n \div c.chunk) * Real
Line(b, nn, kind, r, w, ord) == Say([k |-> "sched", b |-> b, n |-> nn, kind |-> kind, r |-> r, cs |-> CacheStart(b, nn, r), w |-> w, rows |-> Layout(b, nn), order |-> ord])
(* as many workers as pieces: the harness can hold every worker until it is its turn *)
Emit == /\ (pc = "done" /\ Real > 0 /\ c.w >= Max(c.n \div c.chunk, c.n \div c.block)) =>
             Line(c.b, RealLeaves, c.kind, c.r, c.w, [ph \in 1..Len(order) |-> Numbers(ph)])
        /\ (order = <<<<>>>> /\ todo = Pieces(c.n, c.block) /\ c = (CHOOSE x \in Cases : TRUE)) =>
             \A f \in Free : Line(f[1], f[2], f[3], f[4], f[5], <<>>)
=============================================================================
