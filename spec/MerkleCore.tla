----------------------------- MODULE MerkleCore -----------------------------
(***************************************************************************)
(* Definitions shared by all modules: what a complete b-ary hash tree is,  *)
(* how it is laid out as one flat sequence, what a proof consists of, and   *)
(* which rows a compacted store keeps.  Nothing here mirrors the code; the  *)
(* code-shaped algorithms live in the modules that check them against this. *)
(*                                                                         *)
(* Hash values are symbolic.  The value of node k of the tree is named by   *)
(* its flat index k ("canonical naming"): with pairwise different leaves    *)
(* and a collision-free hash this is a bijection, so a hash of a list of    *)
(* named nodes is again a named node or something that is in no tree.       *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json

(* No RECURSIVE operators in this module: TLC evaluates constant expressions *)
(* once only if none are involved (and no TLCEval either).                 *)
Pow(b, k) == b ^ k

IsPow2(x) == \E e \in 0..30 : Pow(2, e) = x

(* exponents whose power still fits TLC's 32-bit integers *)
Exps(b) == {k \in 0..30 : \/ b <= 1
                          \/ (b <= 2 /\ k <= 30)
                          \/ (b <= 4 /\ k <= 15)
                          \/ (b <= 8 /\ k <= 10)
                          \/ (b <= 16 /\ k <= 7)
                          \/ (b <= 32 /\ k <= 6)
                          \/ (b <= 64 /\ k <= 5)
                          \/ (b <= 128 /\ k <= 4)
                          \/ (b <= 1024 /\ k <= 3)
                          \/ (b <= 32768 /\ k <= 2)
                          \/ k <= 1}

(* n leaves form a complete tree of arity b *)
TreeSize(b, n) == b >= 2 /\ IsPow2(b) /\ \E k \in Exps(b) \ {0} : Pow(b, k) = n

(* number of rows, leaves and root included *)
Depth(b, n) == CHOOSE k \in 0..30 : Pow(b, k) = n
Rows(b, n) == Depth(b, n) + 1

Width(b, n, l) == n \div Pow(b, l)

Start0(b, n, l) == ((n - n \div Pow(b, l)) \div (b - 1)) * b
(* flat index at which row l begins; row 0 are the leaves *)
(* (the sum of the widths n/b^j, j < l; StartIsSum checks the closed form)  *)
Start(b, n, l) == IF l > Depth(b, n) THEN Start0(b, n, l - 1) + 1 ELSE Start0(b, n, l)
StartIsSum(b, n) == /\ Start(b, n, 0) = 0
                    /\ \A l \in 1..Rows(b, n) : Start(b, n, l) = Start(b, n, l - 1) + Width(b, n, l - 1)

TreeLen(b, n) == Start(b, n, Rows(b, n))
Root(b, n) == TreeLen(b, n) - 1

RowOf(b, n, k) == CHOOSE l \in 0..Depth(b, n) :
                     Start(b, n, l) <= k /\ k < Start(b, n, l) + Width(b, n, l)

(* the b children of node k, left to right; a leaf has none *)
Kids(b, n, k) ==
    LET l == RowOf(b, n, k) IN
    IF l = 0 THEN <<>>
    ELSE [c \in 1..b |-> Start(b, n, l - 1) + (k - Start(b, n, l)) * b + (c - 1)]

(* the node above node k (k not the root) *)
Parent(b, n, k) ==
    LET l == RowOf(b, n, k) IN Start(b, n, l + 1) + (k - Start(b, n, l)) \div b

(* the height an interior node is hashed with: 0 right above the leaves *)
Height(b, n, k) == RowOf(b, n, k) - 1

(* the ancestor of leaf i in row l *)
Anc(b, n, i, l) == Start(b, n, l) + (i \div Pow(b, l))
Digit(b, i, l) == (i \div Pow(b, l)) % b

(* siblings of the ancestor in row l, left to right *)
Siblings(b, n, i, l) ==
    LET first == Start(b, n, l) + ((i \div Pow(b, l)) \div b) * b
        me    == Anc(b, n, i, l)
        all   == [c \in 1..b |-> first + (c - 1)]
    IN  SelectSeq(all, LAMBDA x : x # me)

(* all siblings on the way up, row after row: entry x is sibling number p of row l *)
LemmaRows(b, n, i) ==
    [x \in 1..((b - 1) * Depth(b, n)) |->
        LET l == (x - 1) \div (b - 1)
            p == (x - 1) % (b - 1)
        IN  Start0(b, n, l) + (i \div Pow(b, l + 1)) * b + (IF p < Digit(b, i, l) THEN p ELSE p + 1)]
LemmaIsSiblings(b, n, i) ==
    \A l \in 0..(Depth(b, n) - 1) : SubSeq(LemmaRows(b, n, i), l * (b - 1) + 1, (l + 1) * (b - 1)) = Siblings(b, n, i, l)

Lemma(b, n, i) == <<i>> \o LemmaRows(b, n, i) \o <<Root(b, n)>>
Path(b, n, i) == [l \in 1..Depth(b, n) |-> Digit(b, i, l - 1)]
LemmaLen(b, n) == 2 + (b - 1) * Depth(b, n)

(* Compaction with r discarded rows: rows 1..r are dropped, rows r+1.. kept *)
CanDiscard(b, n, r) == r <= Rows(b, n) - 2
CacheStart(b, n, r) == Start(b, n, r + 1)
CacheSize(b, n, r) == TreeLen(b, n) - CacheStart(b, n, r)
Min(x, y) == IF x <= y THEN x ELSE y
Max(x, y) == IF x >= y THEN x ELSE y
DefaultRows(b, n) ==
    LET max == IF Rows(b, n) <= 2 THEN 0 ELSE Rows(b, n) - 2
    IN  CASE b = 2 -> Min(max, 7) [] b = 4 -> Min(max, 5) [] OTHER -> Min(max, 2)

(* A proof from cached rows, requested for r rows (or for the default): the number used, and *)
(* whether a store that lacks rows 1..r0 has all that is needed.                              *)
EffRows(b, n, r) == Min(r, DefaultRows(b, n))
Answers(b, n, r0, r) == EffRows(b, n, r) >= r0

(* The hash of the named nodes cs with height h: a named node if cs are   *)
(* exactly its children and h its height, otherwise a value of no tree.   *)
NoNode == -1
HashName(b, n, cs, h) ==
    IF Len(cs) # b \/ cs[1] < 0 \/ cs[1] >= Root(b, n) THEN NoNode
    ELSE LET k == Parent(b, n, cs[1])
         IN  IF Kids(b, n, k) = cs /\ Height(b, n, k) = h THEN k ELSE NoNode

Range(f) == {f[x] : x \in DOMAIN f}
Iota(lo, hi) == [x \in 1..(hi - lo) |-> lo + x - 1]      \* <<lo, .., hi-1>>

(* rows of the layout, for the harness: <<start, width>> bottom up *)
Layout(b, n) == [l \in 1..Rows(b, n) |-> <<Start(b, n, l - 1), Width(b, n, l - 1)>>]

(* a line for the harness; the driver picks up the lines that start with @@ *)
Say(rec) == PrintT("@@" \o ToJson(rec))
=============================================================================
