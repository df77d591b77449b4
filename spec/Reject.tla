-------------------------------- MODULE Reject --------------------------------
(***************************************************************************)
(* Impossible trees are refused (C16).  A request asks a constructor for a  *)
(* tree of arity b over n leaves, declared with st sub-trees and tt top      *)
(* trees, from input of a given form.  The state is what the data file of    *)
(* the configuration holds.  A request that is possible leaves a tree there; *)
(* one that is not is refused and leaves nothing that the next request would *)
(* take for a tree - neither the same request again nor a possible one.      *)
(***************************************************************************)
EXTENDS MerkleCore, SequencesExt

CONSTANTS Arities, Counts,    \* tried with leaves
          TreeCases,          \* {<<b, n>>}: tried with complete trees and stores of other sizes
          Shapes              \* {<<st, tt>>}: declared shapes
VARIABLES req, disk, said, turn
vars == <<req, disk, said, turn>>

(* input forms: leaves from an iterator (with an exact, an unknown, a least or a wrong size),       *)
(* bytes of leaves (with x bytes more than whole elements), a complete tree as bytes or as *)
(* a store (k elements, x bytes more)                                                      *)
Leaves == [form : {"exact", "unknown", "atleast", "fewer", "more"}, b : Arities, n : Counts, k : {0}, x : {0}, st : {0}, tt : {0}]
Bytes == [form : {"bytes"}, b : Arities, n : Counts, k : {0}, x : {0, 1, 3}, st : {0}, tt : {0}]
Declared == {[form |-> f, b |-> c[1], n |-> c[2], k |-> IF f \in {"tree", "store"} THEN TreeLen(c[1], c[2]) ELSE 0, x |-> 0, st |-> s[1], tt |-> s[2]] :
                f \in {"exact", "bytes", "tree", "store"}, c \in TreeCases, s \in Shapes}
Near(len) == {len, len - 1, len + 1, 0, 1, 2 * len, 2 * len + 1, (len - 1) \div 2} \cap 0..100000
Whole == UNION {[form : {"tree", "store"}, b : {c[1]}, n : {c[2], c[2] + 1, 2 * c[2], c[2] \div 2, c[2] - 1, 0, 1}, k : Near(TreeLen(c[1], c[2])), x : {0, 1, 3}, st : {0}, tt : {0}] : c \in TreeCases}
Odd == [form : {"tree", "store"}, b : Arities, n : {0, 1, 2, 3, 4, 8, 16}, k : {0, 1, 2, 3, 4, 5, 7, 10, 21}, x : {0}, st : {0}, tt : {0}]
Requests == Leaves \cup Bytes \cup Declared \cup {q \in Whole : q.form = "store" => q.x = 0} \cup Odd

Possible(q) == /\ TreeSize(q.b, q.n) /\ q.st = 0 /\ q.tt = 0 /\ q.x = 0
               /\ CASE q.form \in {"exact", "bytes"} -> TRUE
                    [] q.form \in {"unknown", "atleast", "fewer", "more"} -> FALSE
                    [] q.form \in {"tree", "store"} -> q.k = TreeLen(q.b, q.n)
(* the crate hashes whole groups in chunks of 4096 nodes and may refuse wider groups *)
Wide(q) == q.b > 4096

Init == req \in Requests /\ disk = "none" /\ said = "" /\ turn = 0
(* the first request, then the same or a possible one with the same configuration *)
First == /\ turn = 0 /\ turn' = 1
         /\ IF Possible(req) THEN said' = "tree" /\ disk' = "tree" ELSE said' = "refused" /\ disk' = disk
         /\ UNCHANGED req
Again == /\ turn = 1 /\ turn' = 2 /\ said = "refused"
         /\ said' = "refused" /\ disk' = disk /\ UNCHANGED req
Good == /\ turn = 1 /\ turn' = 3 /\ said = "refused" /\ disk = "none"
        /\ said' = "tree" /\ disk' = "tree" /\ UNCHANGED req
Next == First \/ Again \/ Good
Spec == Init /\ [][Next]_vars

(* no tree without a possible request *)
NeverWrong == turn \in {1, 2} => (said = "tree") = (disk = "tree") /\ (disk = "tree" => Possible(req))
OneAndOnly == Possible(req) => req.n >= 2 /\ req.b >= 2 /\ req.n % req.b = 0

GoodB == IF req.b \in {2, 4, 8, 16} THEN req.b ELSE 2
Emit == turn = 1 => Say([k |-> "reject", form |-> req.form, b |-> req.b, n |-> req.n, c |-> req.k, x |-> req.x, st |-> req.st, tt |-> req.tt,
                         out |-> IF Wide(req) /\ Possible(req) THEN "any" ELSE IF Possible(req) THEN "ok" ELSE "no",
                         rows |-> IF Possible(req) THEN Layout(req.b, req.n) ELSE <<>>,
                         gb |-> GoodB, good |-> Layout(GoodB, GoodB * GoodB)])
=============================================================================
