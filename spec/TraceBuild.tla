------------------------------ MODULE TraceBuild ------------------------------
(***************************************************************************)
(* Checks recorded executions of the real build against ParBuild's rules.    *)
(* A trace lists what the workers did with the store, in the order in which   *)
(* it took effect: reads <<"r", w, lo, hi>>, writes <<"w", w, at, runs>> and    *)
(* hashes <<"h", w, runs>>; runs are sequences of <<first, count>> of node       *)
(* names (first = -1: a value that is no node of the tree).                    *)
(*   a read covers only cells that hold their node; a hash gives a node; at    *)
(*   the end every cell holds its node.  In which order, in which pieces and    *)
(*   how often cells are written is left open, and so are placeholders that     *)
(*   nobody reads.                                                              *)
(***************************************************************************)
EXTENDS MerkleCore, SequencesExt, FiniteSetsExt

CONSTANT File
Traces == ndJsonDeserialize(File)
VARIABLES t, i, cells, ok
vars == <<t, i, cells, ok>>

Tr == Traces[t]
(* written cells as maximal disjoint intervals <<lo, hi>> *)
Has(lo, hi) == lo >= hi \/ \E x \in cells : x[1] <= lo /\ hi <= x[2]
Add(c, lo, hi) == IF lo >= hi THEN c
               ELSE LET touch == {x \in c : x[1] <= hi /\ lo <= x[2]}
                    IN  (c \ touch) \cup {<<FoldSet(LAMBDA x, y : Min(x[1], y), lo, touch), FoldSet(LAMBDA x, y : Max(x[2], y), hi, touch)>>}
Cut(c, lo, hi) == UNION {{y \in {<<x[1], Min(x[2], lo)>>, <<Max(x[1], hi), x[2]>>} : y[1] < y[2]} : x \in c}
Legal(e) == CASE e[1] = "r" -> Has(e[3], e[4])
              [] e[1] = "h" -> \A x \in 1..Len(e[3]) : e[3][x][1] >= 0
              [] e[1] = "w" -> TRUE
              [] e[1] = "end" -> e[3] = TreeLen(Tr.b, Tr.n) /\ cells = {<<0, TreeLen(Tr.b, Tr.n)>>}
(* cells that hold their node after the write of runs from cell at on *)
RECURSIVE Laid(_, _, _)
Laid(c, at, runs) == IF runs = <<>> THEN c
                     ELSE LET hi == at + runs[1][2] IN
                          Laid(IF runs[1][1] = at THEN Add(c, at, hi) ELSE Cut(c, at, hi), hi, Tail(runs))

Init == t \in 1..Len(Traces) /\ i = 0 /\ cells = {} /\ ok = TRUE
Next == /\ ok /\ i < Len(Tr.ev)
        /\ i' = i + 1
        /\ LET e == Tr.ev[i + 1] IN
           /\ ok' = Legal(e)
           /\ cells' = IF e[1] = "w" THEN Laid(cells, e[3], e[4]) ELSE cells
        /\ UNCHANGED t
Spec == Init /\ [][Next]_vars

Emit == (~ok => Say([bad |-> t, at |-> i])) /\ (ok /\ i = Len(Tr.ev) => Say([good |-> t]))
=============================================================================
