------------------------------- MODULE StoreArr -------------------------------
(***************************************************************************)
(* A store is a bounded array of elements (C14).  The state is the array,   *)
(* its length, and for a memory map whether it is established; the actions  *)
(* are the calls of the Store trait that change a store, each with its      *)
(* outcome.  TLC enumerates every history up to Depth (or random ones) and  *)
(* writes each as one case: the calls, whether each succeeds, and what the  *)
(* store holds afterwards.  Values are fresh at every write, so that a      *)
(* stale, lost or misplaced value is seen.                                  *)
(***************************************************************************)
EXTENDS MerkleCore

CONSTANTS Cap,       \* number of elements the store is created for
          Bounded,   \* writes beyond Cap are refused (memory stores grow)
          Maps,      \* the store has a memory map that can be released
          Inits,     \* {<<how, elements given initially>>}
          Beyond,    \* how far past Cap the positions go
          MaxSlice,  \* longest slice
          Far,       \* positions that are also tried 2^64 bytes further on
          Depth_,    \* length of a history
          Scale,     \* each position and value stands for a block of this many in the store
          Stores     \* names for the harness

VARIABLES init, cells, len, mapped, hist

vars == <<init, cells, len, mapped, hist>>

Max2(x, y) == IF x > y THEN x ELSE y
Unset == 0 - 1                       \* below the length, but never written
Val(step, j) == 100 * (step + 1) + j
Step == Len(hist)
Idx == 0..(Cap + Beyond)
Lim == IF Bounded THEN Cap ELSE Cap + Beyond + MaxSlice + Depth_ + 1

Init == /\ init \in Inits
        /\ cells = [k \in 0..(Lim - 1) |-> IF k < init[2] THEN Val(Depth_ + 1, k) ELSE Unset]
        /\ len = init[2]
        /\ mapped = TRUE
        /\ hist = <<>>

Obs(l, c, m) == [len |-> l, cells |-> [k \in 1..l |-> c[k - 1]], up |-> m]
(* the call, its outcome, and what can be observed afterwards *)
Did(op, ok, l, c, m) ==
    /\ len' = l /\ cells' = c /\ mapped' = m
    /\ hist' = Append(hist, [op |-> op, ok |-> ok, st |-> Obs(l, c, m)])
    /\ UNCHANGED init

Written(s, k) == [x \in DOMAIN cells |-> IF x >= s /\ x < s + k THEN Val(Step, x - s) ELSE cells[x]]
(* k elements at s: all of them or none *)
Put(op, s, k) ==
    IF s + k <= Lim THEN Did(op, TRUE, Max2(len, s + k), Written(s, k), TRUE)
    ELSE \* a refused write may already have re-established the map
         Did(op, FALSE, len, cells, mapped)

WriteAt == \E s \in Idx : Put(<<"write_at", s, Val(Step, 0)>>, s, 1)
CopySlice == \E s \in Idx, k \in 1..MaxSlice : Put(<<"copy", s, k, Val(Step, 0)>>, s, k)
(* a slice that is not a whole number of elements *)
CopyPart == \E s \in {0, len}, k \in 0..1 : Did(<<"part", s, k, Val(Step, 0)>>, FALSE, len, cells, mapped)
(* a position so far out that its byte address does not fit the machine word: 2^64 bytes past position j *)
FarWrite == Bounded /\ \E j \in Far, how \in {"far_write", "far_copy"} : Did(<<how, j, Val(Step, 0)>>, FALSE, len, cells, mapped)
Push == Put(<<"push", len, Val(Step, 0)>>, len, 1)
Sync == Did(<<"sync">>, TRUE, len, cells, mapped)
Shrink == Did(<<"compact">>, TRUE, len, cells, ~Maps)
Reinit == Did(<<"reinit">>, TRUE, len, cells, TRUE)
(* only with a configuration: give the store up and open its file again *)
Reopen == /\ init[1] = "config" /\ Bounded
          /\ \E how \in {"disk", "config"} : Did(<<"reopen", how>>, TRUE, Cap, cells, TRUE)

Ops == WriteAt \/ CopySlice \/ CopyPart \/ FarWrite \/ Push \/ Sync \/ (Maps /\ (Shrink \/ Reinit)) \/ (~Bounded /\ Shrink) \/ Reopen
Next == Step < Depth_ /\ Ops
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
TypeOK == /\ len \in 0..Lim /\ mapped \in BOOLEAN
          /\ Bounded => len <= Cap
(* the length is one more than the highest position ever written (or opened) *)
Highest == IF \E h \in 1..Step : hist[h].op[1] = "reopen" THEN len = Cap
           ELSE len = Max2(init[2], CHOOSE m \in 0..Lim :
                  /\ \A h \in 1..Step : hist[h].ok => CASE hist[h].op[1] \in {"write_at", "push"} -> hist[h].op[2] + 1 <= m
                                                       [] hist[h].op[1] = "copy" -> hist[h].op[2] + hist[h].op[3] <= m
                                                       [] OTHER -> TRUE
                  /\ (m = 0 \/ \E h \in 1..Step : hist[h].ok /\ CASE hist[h].op[1] \in {"write_at", "push"} -> hist[h].op[2] + 1 = m
                                                       [] hist[h].op[1] = "copy" -> hist[h].op[2] + hist[h].op[3] = m
                                                       [] OTHER -> FALSE))
(* each value is that of the last successful write that covers the position *)
Latest == \A x \in 0..(len - 1) :
             LET cov == {h \in 1..Step : hist[h].ok /\ CASE hist[h].op[1] \in {"write_at", "push"} -> hist[h].op[2] = x
                                                       [] hist[h].op[1] = "copy" -> hist[h].op[2] <= x /\ x < hist[h].op[2] + hist[h].op[3]
                                                       [] OTHER -> FALSE}
             IN  cells[x] = IF cov = {} THEN (IF x < init[2] THEN Val(Depth_ + 1, x) ELSE Unset)
                            ELSE LET h == CHOOSE h \in cov : \A g \in cov : g <= h
                                 IN  Val(h - 1, x - hist[h].op[2])
(* a refusal changes nothing that can be read *)
RefusalIsNoOp == [][Len(hist') > Len(hist) /\ ~hist'[Len(hist')].ok => UNCHANGED <<cells, len>>]_vars

Emit == Step = Depth_ =>
          Say([k |-> "array", stores |-> Stores, cap |-> Cap, scale |-> Scale, init |-> init, hist |-> hist])
=============================================================================
