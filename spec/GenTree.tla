------------------------------- MODULE GenTree -------------------------------
(***************************************************************************)
(* Cases for the construction of single trees: the shape of the tree, the   *)
(* definition of every node, and the constructors and stores that have to   *)
(* produce it.  Each state is one case; its line goes to the harness.       *)
(***************************************************************************)
EXTENDS MerkleCore, SequencesExt

CONSTANTS Cases,        \* set of records [b, n, es, ds, mode, ctors, stores]
          TableMax      \* sizes up to this get an explicit table of children

VARIABLE c

(* How a constructor obtains the leaf row from its input:                  *)
(*  leaf: leaf hash of each item; data: leaf hash of the hash of the object *)
(*  raw : the given bytes; tree: the bytes of the complete tree             *)
Ctors == {
  [name |-> "new",                         leaf |-> "leaf", cfg |-> FALSE],
  [name |-> "new_with_config",             leaf |-> "leaf", cfg |-> TRUE],
  [name |-> "try_from_iter",               leaf |-> "leaf", cfg |-> FALSE],
  [name |-> "try_from_iter_with_config",   leaf |-> "leaf", cfg |-> TRUE],
  [name |-> "from_par_iter",               leaf |-> "leaf", cfg |-> FALSE],
  [name |-> "from_par_iter_with_config",   leaf |-> "leaf", cfg |-> TRUE],
  [name |-> "from_data",                   leaf |-> "data", cfg |-> FALSE],
  [name |-> "from_data_with_config",       leaf |-> "data", cfg |-> TRUE],
  [name |-> "from_byte_slice",             leaf |-> "raw",  cfg |-> FALSE],
  [name |-> "from_byte_slice_with_config", leaf |-> "raw",  cfg |-> TRUE],
  [name |-> "from_tree_slice",             leaf |-> "tree", cfg |-> FALSE],
  [name |-> "from_tree_slice_with_config", leaf |-> "tree", cfg |-> TRUE],
  [name |-> "from_data_store",             leaf |-> "tree", cfg |-> FALSE]
}

AllCtors == {x.name : x \in Ctors}
Core == {"new", "new_with_config", "from_byte_slice_with_config"}
AllStores == {"vec", "disk", "mmap", "lc"}

(* the level cache keeps its rows in a named file: it needs a configuration *)
Supported(ctor, store) == store = "lc" => ctor.cfg

RunSet(names, stores) ==
  UNION {{<<s, x.name, x.leaf>> : s \in {t \in stores : Supported(x, t)}} : x \in {y \in Ctors : y.name \in names}}

Table(b, n) == [j \in 1..(TreeLen(b, n) - n) |->
                  LET k == n + j - 1 IN <<k, Height(b, n, k), Kids(b, n, k)>>]

(* numbers of discarded rows; the level cache is built with each of them *)
Rs(b, n) == LET m == Rows(b, n) - 2 IN
            IF n <= 4096 THEN Iota(0, m + 1) ELSE SetToSeq({0, 1, DefaultRows(b, n), m} \cap 0..m)

Case(x) ==
  LET b == x.b n == x.n IN
  [k |-> "tree", b |-> b, n |-> n, es |-> x.es, mode |-> x.mode, ds |-> x.ds,
   rows |-> Layout(b, n), len |-> TreeLen(b, n), rc |-> Rows(b, n), root |-> Root(b, n),
   kids |-> IF n <= TableMax THEN Table(b, n) ELSE <<>>,
   rs |-> Rs(b, n), cs |-> [i \in 1..Len(Rs(b, n)) |-> CacheStart(b, n, Rs(b, n)[i])],
   runs |-> SetToSeq(RunSet(x.ctors, x.stores))]

(* families of cases *)
Mk(bns, ess, dss, modes, ctors, stores) ==
  {[b |-> z[1][1], n |-> z[1][2], es |-> z[2], ds |-> z[3], mode |-> z[4], ctors |-> ctors, stores |-> stores] :
     z \in bns \X ess \X dss \X modes}

Upto(b, m) == {<<b, Pow(b, k)>> : k \in {j \in Exps(b) \ {0} : Pow(b, j) <= m}}
Small == Upto(2, 256) \cup Upto(4, 256) \cup Upto(8, 512) \cup Upto(16, 256)
Medium == (Upto(2, 8192) \cup Upto(4, 16384) \cup Upto(8, 4096) \cup Upto(16, 4096)) \ Small
Wide == {<<32, 32>>, <<32, 1024>>, <<64, 64>>, <<64, 4096>>, <<128, 128>>, <<128, 16384>>}
Wider == {<<256, 256>>, <<256, 65536>>, <<512, 512>>, <<1024, 1024>>}
Few == {<<2, 2>>, <<2, 4>>, <<2, 16>>, <<2, 64>>, <<4, 4>>, <<4, 16>>, <<4, 64>>, <<8, 8>>, <<8, 64>>}

Init == c \in Cases
Next == FALSE /\ UNCHANGED c

(* the definition is self-consistent: rows tile the index space, every node *)
(* but the root has exactly one parent, children come before parents        *)
WellDefined ==
  LET b == c.b n == c.n IN
  /\ TreeSize(b, n) /\ StartIsSum(b, n)
  /\ n <= 64 =>
       /\ \A k \in n..Root(b, n) : \A x \in Range(Kids(b, n, k)) : x < k
       /\ \A x \in 0..(Root(b, n) - 1) :
             Cardinality({k \in n..Root(b, n) : x \in Range(Kids(b, n, k))}) = 1
             
Emit == Say(Case(c))
=============================================================================
