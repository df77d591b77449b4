-------------------------------- MODULE Parts --------------------------------
(***************************************************************************)
(* Compound trees over persisted parts (C16, and C07 from the side of the    *)
(* files).  A type declares st sub-trees and tt top trees (0: no such layer).*)
(* Part q has a data file of its own or none.  The calls are: building one   *)
(* part, deleting it, loading k configured parts as one tree, and composing  *)
(* k parts that are at hand.  A call that asks for a compound tree is        *)
(* possible only if the constructor fits the declared layers, the number of  *)
(* parts is the declared one and every part is there; a call that is not     *)
(* possible is refused and leaves every file as it was - in particular it     *)
(* creates none.                                                             *)
(***************************************************************************)
EXTENDS MerkleCore, SequencesExt

CONSTANTS Declared,   \* {<<st, tt>>}
          Trees,      \* {<<b, n>>}: a part
          Depth_
VARIABLES d, bn, here, log
vars == <<d, bn, here, log>>

Want == d[1] * Max(1, d[2])                      \* parts of the declared type
Ids == 0..Want                                    \* one more than needed
OneLayer == d[1] > 0 /\ d[2] = 0
TwoLayers == d[1] > 0 /\ d[2] > 0
Fits(via) == IF via \in {"from_store_configs", "from_trees", "from_slices", "from_stores"} THEN OneLayer ELSE TwoLayers

Init == d \in Declared /\ bn \in Trees /\ here = {} /\ log = <<>>

Did(op, out, now) == here' = now /\ log' = Append(log, [op |-> op, out |-> out, here |-> SetToSortSeq(now, <)]) /\ UNCHANGED <<d, bn>>
Build == \E q \in Ids : q \notin here /\ Did(<<"build", ToString(q)>>, "ok", here \cup {q})
Drop == \E q \in here : Did(<<"drop", ToString(q)>>, "ok", here \ {q})
Counts == {0, 1, Want - 1, Want, Want + 1} \cap 0..(Want + 1)
Load == \E via \in {"from_store_configs", "from_sub_tree_store_configs"}, k \in Counts :
        Did(<<via, ToString(k)>>, IF Fits(via) /\ k = Want /\ 0..(k - 1) \subseteq here THEN "ok" ELSE "no", here)
(* the same from parts in memory *)
Compose == \E via \in {"from_trees", "from_slices", "from_stores", "from_sub_trees_as_trees"}, k \in Counts :
        (via = "from_slices" => d[2] = 0) /\         \* its result has one layer by its type
        Did(<<via, ToString(k)>>, IF Fits(via) /\ k = Want THEN "ok" ELSE "no", here)
Next == Len(log) < Depth_ /\ (Build \/ Drop \/ Load \/ Compose)
Spec == Init /\ [][Next]_vars

Op(l) == l.op[1]
Asks == {"from_store_configs", "from_sub_tree_store_configs", "from_trees", "from_slices", "from_stores", "from_sub_trees_as_trees"}
(* asking for a compound tree creates and removes nothing *)
OnlyBuildCreates == [][log' # log /\ Op(Last(log')) \in Asks => here' = here]_vars
(* no compound tree without a compound shape, nor with a part missing *)
NoWrong == log # <<>> /\ Op(Last(log)) \in Asks /\ Last(log).out = "ok" =>
              d[1] > 0 /\ (Op(Last(log)) \in {"from_store_configs", "from_sub_tree_store_configs"} => 0..(Want - 1) \subseteq here)

View == <<d, bn, here, IF log = <<>> THEN <<>> ELSE Last(log).op>>
Emit == log # <<>> /\ Op(Last(log)) \in Asks =>
          Say([k |-> "parts", st |-> d[1], tt |-> d[2], b |-> bn[1], n |-> bn[2], rows |-> Layout(bn[1], bn[2]), log |-> log])
==============================================================================
