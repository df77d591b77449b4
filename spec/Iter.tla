--------------------------------- MODULE Iter ---------------------------------
(***************************************************************************)
(* Iterating over a store (C17).  A parallel iteration cuts the index range *)
(* 0..N-1 into pieces (producers) by repeated splitting, turns pieces into  *)
(* iterators, and takes elements from either end of each, in any            *)
(* interleaving.  The elements are named by their index.  Whatever the      *)
(* splitting and the interleaving, the pieces laid side by side give every  *)
(* element once, in order, and every reported length is exact.              *)
(***************************************************************************)
EXTENDS MerkleCore

CONSTANTS Ns, MaxSplits, Depth_, Bulk

VARIABLES n, segs, hist
vars == <<n, segs, hist>>

None == 0 - 1
Span(lo, hi) == [j \in 1..(hi - lo) |-> lo + (j - 1)]
Seg(lo, hi) == [lo |-> lo, hi |-> hi, on |-> FALSE, front |-> <<>>, back |-> <<>>]

Init == /\ n \in Ns
        /\ segs = <<Seg(0, n)>>
        /\ hist = <<>>

Lens(ss) == [x \in 1..Len(ss) |-> ss[x].hi - ss[x].lo]
Did(op, ss) == /\ segs' = ss
               /\ hist' = Append(hist, [op |-> op, lens |-> Lens(ss)])
               /\ UNCHANGED n

Split == \E x \in 1..Len(segs) : \E k \in 0..(segs[x].hi - segs[x].lo) :
           /\ Len(segs) <= MaxSplits /\ ~segs[x].on
           /\ LET m == segs[x].lo + k IN
              Did(<<"split", x - 1, k>>, SubSeq(segs, 1, x - 1) \o <<Seg(segs[x].lo, m), Seg(m, segs[x].hi)>> \o SubSeq(segs, x + 1, Len(segs)))
Start_ == \E x \in 1..Len(segs) : ~segs[x].on /\ Did(<<"start", x - 1>>, [segs EXCEPT ![x].on = TRUE])
Take == \E x \in 1..Len(segs) :
           /\ segs[x].on
           /\ IF segs[x].lo = segs[x].hi
              THEN \E e \in {"next", "back"} : Did(<<e, x - 1, None>>, segs)
              ELSE \/ Did(<<"next", x - 1, segs[x].lo>>, [segs EXCEPT ![x].lo = @ + 1, ![x].front = Append(@, segs[x].lo)])
                   \/ Did(<<"back", x - 1, segs[x].hi - 1>>, [segs EXCEPT ![x].hi = @ - 1, ![x].back = <<segs[x].hi - 1>> \o @])

(* several at once: the j-th from either end; the ones before it are passed over *)
Skip == Bulk /\ \E x \in 1..Len(segs), j \in 0..3 :
           /\ segs[x].on
           /\ LET lo == segs[x].lo hi == segs[x].hi IN
              IF j >= hi - lo
              THEN \/ Did(<<"nth", x - 1, None, j>>, [segs EXCEPT ![x].lo = hi, ![x].front = @ \o Span(lo, hi)])
                   \/ Did(<<"nth_back", x - 1, None, j>>, [segs EXCEPT ![x].hi = lo, ![x].back = Span(lo, hi) \o @])
              ELSE \/ Did(<<"nth", x - 1, lo + j, j>>, [segs EXCEPT ![x].lo = lo + j + 1, ![x].front = @ \o Span(lo, lo + j + 1)])
                   \/ Did(<<"nth_back", x - 1, hi - 1 - j, j>>, [segs EXCEPT ![x].hi = hi - 1 - j, ![x].back = Span(hi - 1 - j, hi) \o @])
(* all that is left: listed forwards or backwards, counted, folded, only the last one kept *)
Rest == Bulk /\ \E x \in 1..Len(segs), way \in {"all", "rev", "count", "last", "fold", "rfold", "step", "find"} :
           /\ segs[x].on
           /\ Did(<<"rest", x - 1, segs[x].lo, segs[x].hi, way>>, [segs EXCEPT ![x].lo = segs[x].hi, ![x].front = @ \o Span(segs[x].lo, segs[x].hi)])

Next == Len(hist) < Depth_ /\ (Split \/ Start_ \/ Take \/ Skip \/ Rest)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
RECURSIVE Concat(_, _)
Concat(ss, k) == IF k = 0 THEN <<>> ELSE Concat(ss, k - 1) \o ss[k]
Piece(sg) == sg.front \o [j \in 1..(sg.hi - sg.lo) |-> sg.lo + (j - 1)] \o sg.back
(* taken and remaining elements of all pieces, side by side *)
EachOnceInOrder == Concat([x \in 1..Len(segs) |-> Piece(segs[x])], Len(segs)) = [j \in 1..n |-> j - 1]
Finish == (\A x \in 1..Len(segs) : segs[x].on /\ segs[x].lo = segs[x].hi)
          => Concat([x \in 1..Len(segs) |-> segs[x].front \o segs[x].back], Len(segs)) = [j \in 1..n |-> j - 1]

Emit == Len(hist) = Depth_ => Say([k |-> "iter", n |-> n, hist |-> hist])
=============================================================================
