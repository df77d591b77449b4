-------------------------------- MODULE Fault --------------------------------
(***************************************************************************)
(* Construction from an input that can fail (C20).  An attempt takes n items *)
(* one by one; some of them are errors.  Hashed items are gathered in blocks *)
(* and written when a block is full and at the end; then the rows above are  *)
(* built.  An error ends the attempt at once.  With a persistent             *)
(* configuration attempts follow each other on the same file: an attempt      *)
(* that fails must leave the file absent, so that a later one builds.        *)
(*                                                                         *)
(* The state machine works item by item with a small block; its result is    *)
(* checked against the definition (Outcome), which also produces the cases    *)
(* of real size.                                                            *)
(***************************************************************************)
EXTENDS MerkleCore, SequencesExt, FiniteSetsExt

CONSTANTS Arity, Sizes,    \* leaf counts
          MaxFaults,       \* faults per attempt
          Attempts_,       \* attempts per history
          Block,           \* items per write
          Given            \* {<<b, n, <<F1, F2, ..>>>>}: histories of real size
VARIABLES n, plan, at, i, buf, stored, taken, disk, res
vars == <<n, plan, at, i, buf, stored, taken, disk, res>>

None == [kind |-> "none", ver |-> 0]
FaultSets(k) == {F \in SUBSET (0..(k - 1)) : Cardinality(F) <= MaxFaults}
First(F) == CHOOSE x \in F : \A y \in F : x <= y

(* what attempt number a with faults F gives on a disk that holds d *)
Outcome(k, F, a, d) ==
    IF d.kind = "tree" THEN [out |-> "kept", first |-> IF F = {} THEN 0 ELSE First(F), ver |-> d.ver, took |-> 0]
    ELSE IF F = {} THEN [out |-> "ok", first |-> 0, ver |-> a, took |-> k]
    ELSE [out |-> "err", first |-> First(F), ver |-> 0, took |-> First(F) + 1]
After(F, a, d) == IF d.kind = "tree" \/ F # {} THEN d ELSE [kind |-> "tree", ver |-> a]

Init == /\ n \in Sizes
        /\ plan \in [1..Attempts_ -> FaultSets(n)]
        /\ at = 1 /\ i = 0 /\ buf = 0 /\ stored = 0 /\ taken = 0 /\ disk = None /\ res = <<>>
Finished(r, d) == res' = Append(res, r) /\ disk' = d /\ at' = at + 1 /\ i' = 0 /\ buf' = 0 /\ stored' = 0 /\ taken' = 0 /\ UNCHANGED <<n, plan>>
Running == at <= Attempts_ /\ disk.kind # "tree"
Kept == at <= Attempts_ /\ disk.kind = "tree" /\ Finished(Outcome(n, plan[at], at, disk), disk)
Item == /\ Running /\ i < n /\ i \notin plan[at]
        /\ i' = i + 1 /\ taken' = taken + 1
        /\ IF buf + 1 >= Block THEN stored' = stored + buf + 1 /\ buf' = 0 ELSE buf' = buf + 1 /\ UNCHANGED stored
        /\ disk' = [kind |-> "part", ver |-> at]
        /\ UNCHANGED <<n, plan, at, res>>
Error == /\ Running /\ i < n /\ i \in plan[at]
         /\ Finished([out |-> "err", first |-> i, ver |-> 0, took |-> taken + 1], None)
End == /\ Running /\ i = n
       /\ Finished([out |-> IF stored + buf = n THEN "ok" ELSE "short", first |-> 0, ver |-> at, took |-> taken], [kind |-> "tree", ver |-> at])
Next == Kept \/ Item \/ Error \/ End
Spec == Init /\ [][Next]_vars

RECURSIVE Hist(_, _, _, _)
Hist(k, fs, a, d) == IF a > Len(fs) THEN <<>>
                     ELSE <<Outcome(k, fs[a], a, d)>> \o Hist(k, fs, a + 1, After(fs[a], a, d))
(* the state machine gives what the definition says *)
AsDefined == LET h == Hist(n, plan, 1, None) IN \A x \in 1..Len(res) : res[x] = h[x]
(* between attempts there is a complete tree or nothing *)
Whole == i = 0 => disk.kind # "part"

Case(b, k, fs) == Say([k |-> "fault", b |-> b, n |-> k, rows |-> Layout(b, k), faults |-> [x \in 1..Len(fs) |-> SetToSortSeq(fs[x], <)], res |-> Hist(k, fs, 1, None)])
Emit == (at > Attempts_ => Case(Arity, n, plan))
        /\ (Given # {} /\ at = 1 /\ i = 0 /\ plan = [x \in 1..Attempts_ |-> {}] => \A g \in {g \in Given : g[1] = Arity /\ n = First(Sizes)} : Case(g[1], g[2], g[3]))
=============================================================================
