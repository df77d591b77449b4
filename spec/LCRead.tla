-------------------------------- MODULE LCRead --------------------------------
(***************************************************************************)
(* Reading a level cache (C11).  A store with r discarded rows answers for   *)
(* the base row and for the rows above the discarded ones; everything else   *)
(* is refused.  What is kept lies in the file (version 1: leaves and cached  *)
(* rows; version 2: cached rows only) and, for version 2, in the replica.    *)
(* The addresses a read is translated to are specified here the way the code *)
(* computes them, and TLC checks them against the definition: the read       *)
(* yields exactly the requested nodes or is refused.                         *)
(***************************************************************************)
EXTENDS MerkleCore, SequencesExt

CONSTANTS Sizes,     \* {<<b, n>>}
          Envs       \* {<<element size, algorithm, dataset>>}

VARIABLES b, n, r, v, env
vars == <<b, n, r, v, env>>

Init == \E z \in Sizes : /\ b = z[1] /\ n = z[2]
                         /\ r \in {q \in 0..20 : CanDiscard(b, n, q)}
                         /\ v \in {1, 2}
                         /\ env \in Envs
Next == UNCHANGED vars

len == TreeLen(b, n)
cs == CacheStart(b, n, r)
(* node held at element position p of the file *)
FileLen == IF v = 1 THEN n + (len - cs) ELSE len - cs
FileAt(p) == IF v = 1 THEN (IF p < n THEN p ELSE cs + (p - n)) ELSE cs + p

Nodes(s, e) == [x \in 1..(e - s) |-> s + x - 1]
Refused == <<-1>>

(* the code: bounds, availability, then the address *)
Available(s, e) == e <= n \/ s >= cs \/ (v = 1 /\ n = cs)
CodeRead(s, e) ==
  IF ~(s < len /\ e <= len /\ Available(s, e)) THEN Refused
  ELSE IF s < n /\ v = 2 THEN (IF e <= n THEN Nodes(s, e) ELSE Refused)      \* the replica: node j at j
  ELSE LET a == IF s >= cs THEN (IF v = 1 THEN s - cs + n ELSE s - cs) ELSE s
       IN  IF a + (e - s) > FileLen THEN Refused ELSE [x \in 1..(e - s) |-> FileAt(a + x - 1)]

(* the definition *)
Must(s, e) == s < e /\ e <= len /\ (e <= n \/ s >= cs)
MustNot(s, e) == e > len \/ s >= len \/ \E k \in n..(cs - 1) : s <= k /\ k < e

TrueOrRefused == \A s \in 0..(len + 1), e \in 0..(len + 2) :
   s < e => LET x == CodeRead(s, e) IN
            /\ x # Refused => x = Nodes(s, e)
            /\ Must(s, e) => x # Refused
            /\ MustNot(s, e) => x = Refused

(* per start: the ends up to which a range must be answered, and those up to which it may be *)
Ends(s) == <<IF s < n THEN n ELSE IF s >= cs /\ s < len THEN len ELSE 0,
             IF s >= len THEN 0 ELSE IF s < n THEN (IF n = cs THEN len ELSE n) ELSE IF s >= cs THEN len ELSE 0>>
EndsRight == \A s \in 0..(len + 1), e \in 0..(len + 2) : s < e =>
                 /\ (Must(s, e) <=> e <= Ends(s)[1])
                 /\ (MustNot(s, e) <=> e > Ends(s)[2])
Small == len <= 200
Check == Small => TrueOrRefused /\ EndsRight
(* rows, and where the ranges are cut in big trees *)
Marks == LET near == UNION {{x - 2, x - 1, x, x + 1, x + 2} : x \in {0, n, cs, len, n \div 2, (n + cs) \div 2, (cs + len) \div 2} \cup {Start(b, n, l) : l \in 0..(Rows(b, n) - 1)}}
         IN  SetToSeq(near \cap 0..(len + 2))
Cuts == IF Small THEN Iota(0, len + 3) ELSE Marks
Emit == Say([k |-> "lcread", b |-> b, n |-> n, r |-> r, v |-> v, es |-> env[1], mode |-> env[2], ds |-> env[3], rows |-> Layout(b, n), len |-> len, rc |-> Rows(b, n), root |-> Root(b, n),
             cs |-> cs, marks |-> [x \in 1..Len(Cuts) |-> <<Cuts[x], Ends(Cuts[x])[1], Ends(Cuts[x])[2]>>]])
=============================================================================
