------------------------------ MODULE Lifecycle ------------------------------
(***************************************************************************)
(* The life of persisted trees (C10, C12, C19).                             *)
(*                                                                         *)
(* A slot is a directory with an id; at most one data file belongs to it.   *)
(* The state is what every file holds and which trees are open.  A file is  *)
(* described by the data it was built from and the rows it keeps, a handle   *)
(* by the slot it was opened from and the rows it can read.  The actions    *)
(* are the calls a user makes: build, open (by every constructor, right or   *)
(* wrong), compact, query, delete, close, and reading from many threads.    *)
(* Each action has one outcome: "ok", "no" (refused) or, where the crate     *)
(* may do either, "same" (refused, or a tree equal to what is on disk).      *)
(*                                                                         *)
(* TLC visits every reachable pair of a state and the action that led to it *)
(* (View) and writes the history that got there, with files and open trees   *)
(* after every step; the harness executes it and compares all of them.      *)
(***************************************************************************)
EXTENDS MerkleCore, SequencesExt

CONSTANTS Shapes,     \* {[b, ns]}: arity, leaf counts of the slots
          Acts,       \* which actions take part
          BuildCtors, \* constructors used to build
          Stores,     \* stores used to build and open
          Rs,         \* numbers of discarded rows tried
          Vers,       \* data versions
          Handles,    \* 1..number of trees open at a time
          Depth_      \* longest history

VARIABLES sh, file, hs, log
vars == <<sh, file, hs, log>>

Slots == 1..Len(sh.ns)
B == sh.b
N(s) == sh.ns[s]
T(s) == TreeLen(B, N(s))

(* x: how many bytes the file is longer (shorter) than it should be: 0, part of an element (1, -1) *)
(* or a whole element (2, -2)                                                                  *)
None == [kind |-> "none", ver |-> 0, rule |-> "", r |-> 0, x |-> 0]
Kinds == {"full", "v1", "v2"}
(* the positions of the tree a file holds, in order: pairs <<from, to>> *)
Segs(s, f) == CASE f.kind = "none" -> <<>>
                [] f.kind = "full" -> <<<<0, T(s)>>>>
                [] f.kind = "v1" -> <<<<0, N(s)>>, <<CacheStart(B, N(s), f.r), T(s)>>>>
                [] f.kind = "v2" -> <<<<CacheStart(B, N(s), f.r), T(s)>>>>
RECURSIVE Total(_)
Total(q) == IF q = <<>> THEN 0 ELSE (Head(q)[2] - Head(q)[1]) + Total(Tail(q))
Size(s, f) == Total(Segs(s, f))
(* the file has exactly the size of k elements *)
Sized(s, f, k) == /\ f.x \in {-2, 0, 2}
                  /\ Size(s, f) + (f.x \div 2) = k
Torn(f) == f.x # 0
(* sizes that the configuration asks for *)
Full(n) == TreeLen(B, n)
V1(n, r) == n + CacheSize(B, n, r)
V2(n, r) == CacheSize(B, n, r)

NoH == [slot |-> 0, store |-> "", ver |-> 0, rule |-> "", kind |-> "none", r |-> 0]
Free == {h \in Handles : hs[h] = NoH}
(* the lowest free handle, so that handles are interchangeable *)
Fresh == CHOOSE h \in Free : \A g \in Free : h <= g
(* the trees open over the file of a slot; trees without a configuration ("anon") have a file of their own, or none *)
On(s) == {h \in Handles : hs[h].slot = s /\ hs[h].store # "anon"}
Named == {h \in Handles : hs[h] # NoH /\ hs[h].store # "anon"}
Closed(set) == [h \in Handles |-> IF h \in set THEN NoH ELSE hs[h]]

Rule(c) == CASE c \in {"new", "from_par_iter", "new_with_config", "try_from_iter_with_config", "from_par_iter_with_config"} -> "leaf"
             [] c \in {"from_data", "from_data_with_config"} -> "data"
             [] OTHER -> "raw"
Handle(s, store, f, kind) == [slot |-> s, store |-> store, ver |-> f.ver, rule |-> f.rule, kind |-> kind, r |-> f.r]

Init == /\ sh \in Shapes
        /\ file = [s \in 1..Len(sh.ns) |-> None]
        /\ hs = [h \in Handles |-> NoH]
        /\ log = <<>>

FileObs(f2) == [s \in Slots |-> <<f2[s].ver, f2[s].rule, Segs(s, f2[s]), f2[s].x>>]
HandObs(h2) == [h \in Handles |-> [slot |-> h2[h].slot, ver |-> h2[h].ver, rule |-> h2[h].rule, kind |-> h2[h].kind, r |-> h2[h].r, anon |-> h2[h].store = "anon",
                                   proves |-> h2[h].kind = "none" \/ Answers(B, N(h2[h].slot), h2[h].r, h2[h].r),
                                   cs |-> IF h2[h].kind \in {"v1", "v2"} THEN CacheStart(B, N(h2[h].slot), h2[h].r)
                                          ELSE IF h2[h].kind = "none" THEN 0 ELSE N(h2[h].slot)]]
Did(op, out, f2, h2) ==
    /\ file' = f2 /\ hs' = h2
    /\ log' = Append(log, [op |-> op, out |-> out, files |-> FileObs(f2), hs |-> HandObs(h2)])
    /\ UNCHANGED sh
Refused(op) == Did(op, "no", file, hs)
Same(op) == Did(op, "same", file, hs)
Opened(op, s, store, kind, f) == Free # {} /\ Did(op, "ok", file, [hs EXCEPT ![Fresh] = Handle(s, store, f, kind)])

(* what LC files can be opened as: version 1 without, version 2 with a reader *)
Fits(s, r) == CanDiscard(B, N(s), r)

Build == "build" \in Acts /\ \E s \in Slots, store \in Stores, c \in BuildCtors, v \in Vers, r \in Rs :
    /\ file[s].kind = "none" /\ On(s) = {} /\ Free # {}
    /\ (store # "lc" => r = 0) /\ Fits(s, r)
    /\ LET slice == c = "from_tree_slice_with_config"
           kind == IF store # "lc" THEN "full" ELSE IF slice THEN "v1" ELSE "v2"
           f == [kind |-> kind, ver |-> v, rule |-> Rule(c), r |-> r, x |-> 0]
           seen == IF kind = "v2" THEN "blind" ELSE kind
       IN  Did(<<"build", s, store, c, v, r, Fresh>>, "ok", [file EXCEPT ![s] = f], [hs EXCEPT ![Fresh] = Handle(s, store, f, seen)])
(* a tree without a configuration: nothing else can get at what it holds *)
Anon == "anon" \in Acts /\ \E s \in Slots, store \in {"vec", "disk", "mmap"}, c \in {"new", "from_tree_slice"}, v \in Vers :
    /\ Free # {}
    /\ Did(<<"anon", s, store, c, v, 0, Fresh>>, "ok", file,
           [hs EXCEPT ![Fresh] = [slot |-> s, store |-> "anon", ver |-> v, rule |-> Rule(c), kind |-> "full", r |-> 0]])
(* a directly built level cache has no base layer until a reader is attached *)
Attach == "attach" \in Acts /\ \E h \in Handles :
    /\ hs[h].kind = "blind"
    /\ Did(<<"attach", hs[h].slot, h>>, "ok", file, [hs EXCEPT ![h].kind = "v2"])

(* opening with a building constructor and other data: the file wins *)
OpenCtor == "open" \in Acts /\ \E s \in Slots, c \in BuildCtors, store \in Stores \cap {"disk", "lc"}, v \in Vers :
    LET f == file[s] IN
    /\ f.kind # "none" /\ v # f.ver /\ Free # {}
    /\ LET op == <<"ctor", s, store, c, v, f.r, Fresh>>
       IN  CASE store = "disk" /\ Torn(f) -> ~Sized(s, f, T(s)) /\ Refused(op)
          [] store = "lc" /\ Torn(f) -> FALSE                          \* its size is not checked
          [] store = "disk" /\ Size(s, f) = T(s) -> IF c = "from_byte_slice_with_config" THEN Same(op) ELSE Opened(op, s, "disk", "full", f)
             [] store = "disk" /\ Size(s, f) # T(s) -> Refused(op)
             [] store = "lc" /\ f.kind = "v1" -> IF c = "from_byte_slice_with_config" THEN Same(op) ELSE Opened(op, s, "lc", "v1", f)
             [] store = "lc" /\ f.kind = "v2" -> Refused(op)      \* no reader, no root
             [] OTHER -> FALSE                                     \* a level cache over a complete file: unspecified
(* opening what is there: size n' and rows r' as the caller believes *)
OpenDisk == "open" \in Acts /\ \E s \in Slots, how \in {"disk", "path", "mmap"}, n \in {sh.ns[x] : x \in Slots} :
    LET f == file[s] op == <<"open", s, how, n, 0, IF Free = {} THEN 0 ELSE Fresh>> IN
    /\ (how = "mmap" => "mmap" \in Stores)
    /\ IF f.kind # "none" /\ Sized(s, f, Full(n)) THEN ~Torn(f) /\ n = N(s) /\ Opened(op, s, IF how = "mmap" THEN "mmap" ELSE "disk", "full", f)
       ELSE Refused(op)
OpenCache == "open" \in Acts /\ "lc" \in Stores /\ \E s \in Slots, how \in {"v1", "reader", "later"}, n \in {sh.ns[x] : x \in Slots}, r \in Rs :
    LET f == file[s] op == <<"open", s, how, n, r, IF Free = {} THEN 0 ELSE Fresh>> IN
    IF ~CanDiscard(B, n, r) THEN Refused(op)
    ELSE CASE f.kind = "none" -> Refused(op)
           [] how = "reader" /\ ~Sized(s, f, V2(n, r)) -> Refused(op)
           [] Torn(f) -> FALSE
           [] how = "reader" /\ f.kind = "v2" /\ n = N(s) /\ r = f.r -> Opened(op, s, "lc", "v2", f)
           [] how = "later" /\ f.kind = "v2" /\ n = N(s) /\ r = f.r -> Opened(op, s, "lc", "v2", f)
           [] how = "v1" /\ f.kind = "v1" /\ n = N(s) /\ r = f.r -> Opened(op, s, "lc", "v1", f)
           [] how = "v1" /\ f.kind = "v2" /\ n = N(s) /\ r = f.r -> Refused(op)     \* a tree over it has no root to read
           [] OTHER -> FALSE                                                        \* not checked by the crate: unspecified
(* the file may only be read *)
OpenRo == "ro" \in Acts /\ \E s \in Slots, how \in {"disk", "path", "mmap", "v1", "reader", "ctor"} :
    LET f == file[s] op == <<"ro", s, how, N(s), f.r, IF Free = {} THEN 0 ELSE Fresh>> IN
    /\ f.kind # "none" /\ On(s) = {}
    /\ CASE how = "mmap" -> Refused(op)
         [] Torn(f) -> IF how = "v1" \/ (how = "reader" /\ f.kind # "v2") \/ (how = "reader" /\ Sized(s, f, V2(N(s), f.r))) \/ (how # "reader" /\ Sized(s, f, T(s))) THEN FALSE ELSE Refused(op)
         [] how \in {"disk", "path", "ctor"} -> IF Size(s, f) = T(s) THEN Opened(op, s, "disk", "full", f) ELSE Refused(op)
         [] how = "v1" /\ f.kind = "v1" -> Opened(op, s, "lc", "v1", f)
         [] how = "reader" /\ f.kind = "v2" -> Opened(op, s, "lc", "v2", f)
         [] OTHER -> FALSE

Close == "close" \in Acts /\ \E h \in Handles : hs[h] # NoH /\ Did(<<"close", hs[h].slot, h>>, "ok", file, Closed({h}))

(* compaction of an open disk tree; afterwards the trees over the old file are gone *)
Compact == "compact" \in Acts /\ \E h \in Handles, v \in {1, 2}, r \in Rs :
    LET s == hs[h].slot op == <<"compact", s, h, v, r>> IN
    /\ hs[h].store = "disk" /\ file[s].kind # "none"
    /\ IF Fits(s, r)
       THEN Did(op, "ok", [file EXCEPT ![s] = [@ EXCEPT !.kind = IF v = 1 THEN "v1" ELSE "v2", !.r = r]], Closed(On(s)))
       ELSE Refused(op)
(* compaction with a configuration that names no file *)
CompactAway == "compact" \in Acts /\ \E h \in Handles, v \in {1, 2}, r \in Rs :
    /\ hs[h].store = "disk" /\ Fits(hs[h].slot, r)
    /\ Refused(<<"compact_away", hs[h].slot, h, v, r>>)
(* a level cache is never compacted; a memory map is only released *)
CompactOther == "compact" \in Acts /\ \E h \in Handles, v \in {1, 2} :
    CASE hs[h].store = "lc" -> Refused(<<"compact", hs[h].slot, h, v, hs[h].r>>)
      [] hs[h].store = "mmap" /\ hs[h].kind = "full" -> Did(<<"compact", hs[h].slot, h, v, 0>>, "ok", file, [hs EXCEPT ![h].kind = "released"])
      [] OTHER -> FALSE
Reinit == "reinit" \in Acts /\ \E h \in Handles :
    /\ hs[h].store \in {"mmap", "disk"}
    /\ Did(<<"reinit", hs[h].slot, h>>, "ok", file, [hs EXCEPT ![h].kind = "full"])

(* the consistency queries: whether the file has the size the configuration asks for *)
Query == "query" \in Acts /\ \E s \in Slots, q \in {"disk", "v1", "v2"}, n \in {sh.ns[x] : x \in Slots}, r \in Rs :
    LET f == file[s]
        want == CASE q = "disk" -> Full(n) [] q = "v1" -> V1(n, r) [] q = "v2" -> V2(n, r)
    IN  /\ CanDiscard(B, n, r) /\ (q = "disk" => r = 0)
        /\ IF f.kind = "none" THEN Refused(<<"query", s, q, n, r>>)
           ELSE Did(<<"query", s, q, n, r>>, IF Sized(s, f, want) THEN "true" ELSE "false", file, hs)

(* removing a store: by the store, or by any open tree *)
Delete == "delete" \in Acts /\ \E s \in Slots, by \in Stores \cup {"tree"} :
    LET op == <<"delete", s, by>> IN
    /\ (by = "tree" => Named # {})
    /\ IF file[s].kind = "none" THEN Refused(op) ELSE Did(op, "ok", [file EXCEPT ![s] = None], Closed(On(s)))

(* a file that nobody has open is cut off or gets longer, or is put right again *)
Tear == "tear" \in Acts /\ \E s \in Slots, x \in -2..2 :
    /\ file[s].kind # "none" /\ On(s) = {} /\ x # file[s].x
    /\ (x # 0 => file[s].x = 0)
    /\ (x < 0 => Size(s, file[s]) > 1)
    /\ Did(<<"tear", s, x>>, "ok", [file EXCEPT ![s].x = x], hs)

(* many threads read, make and check proofs; one may build another tree meanwhile *)
Hammer == "hammer" \in Acts /\ \E s \in {0} \cup Slots, store \in Stores :
    /\ \E h \in Handles : hs[h] # NoH
    /\ (s = 0 => store = CHOOSE x \in Stores : TRUE)
    /\ IF s = 0 THEN Did(<<"hammer", 0, "", 0, 0, 0>>, "ok", file, hs)
       ELSE /\ file[s].kind = "none" /\ On(s) = {} /\ Free # {}
            /\ LET v == CHOOSE v \in Vers : \A w \in Vers : v >= w
                   f == [kind |-> IF store = "lc" THEN "v2" ELSE "full", ver |-> v, rule |-> "leaf", r |-> 0, x |-> 0]
               IN  Did(<<"hammer", s, store, v, 0, Fresh>>, "ok", [file EXCEPT ![s] = f],
                       [hs EXCEPT ![Fresh] = Handle(s, store, f, IF store = "lc" THEN "blind" ELSE "full")])

Step == Build \/ Anon \/ Attach \/ OpenCtor \/ OpenDisk \/ OpenCache \/ OpenRo \/ Close \/ Compact \/ CompactAway \/ CompactOther
        \/ Reinit \/ Query \/ Delete \/ Tear \/ Hammer
Next == Len(log) < Depth_ /\ Step
Spec == Init /\ [][Next]_vars

Latest == log[Len(log)]
View == <<sh, file, hs, IF log = <<>> THEN <<>> ELSE <<Latest.op, Latest.out>> >>
-----------------------------------------------------------------------------
(* every open tree shows the data its file was built from, and no more than the file (and reader) holds *)
OpenIsTrue == \A h \in Named :
                 LET f == file[hs[h].slot] IN
                 /\ f.kind # "none" /\ ~Torn(f) /\ f.ver = hs[h].ver /\ f.rule = hs[h].rule
                 /\ CASE hs[h].kind \in {"full", "released"} -> Size(hs[h].slot, f) = T(hs[h].slot)
                      [] hs[h].kind \in {"v1"} -> f.kind = "v1" /\ f.r = hs[h].r
                      [] hs[h].kind \in {"v2", "blind"} -> f.kind = "v2" /\ f.r = hs[h].r
(* the root is never given up, and the leaves only by version 2 *)
Kept == \A s \in Slots : file[s].kind # "none" =>
            LET q == Segs(s, file[s]) IN
            /\ q[Len(q)][2] = T(s) /\ q[Len(q)][1] < T(s)
            /\ (file[s].kind # "v2" => q[1][1] = 0 /\ q[1][2] >= N(s))
(* an action changes at most the file of the slot it names *)
Isolated == [][\A s \in Slots : file'[s] # file[s] => s = Latest'.op[2]]_vars
(* a file only changes by build, compaction and deletion, and a compaction keeps its data *)
OnlyThen == [][\A s \in Slots : file'[s] # file[s] =>
                 \/ file[s] = None /\ Latest'.op[1] \in {"build", "hammer"}
                 \/ file'[s] = None /\ Latest'.op[1] = "delete"
                 \/ Latest'.op[1] = "tear" /\ [file'[s] EXCEPT !.x = 0] = [file[s] EXCEPT !.x = 0]
                 \/ Latest'.op[1] = "compact" /\ file'[s].ver = file[s].ver /\ file'[s].rule = file[s].rule]_vars
RefusedIsNoOp == [][Latest'.out \in {"no", "same", "true", "false"} => UNCHANGED <<file, hs>>]_vars

Chosen(n) == SetToSeq({0, n - 1, n \div 2, 1})
Emit == log # <<>> =>
          Say([k |-> "life", b |-> B, ns |-> sh.ns, rows |-> [s \in Slots |-> Layout(B, N(s))], len |-> [s \in Slots |-> T(s)],
               proofs |-> [s \in Slots |-> [x \in 1..Len(Chosen(N(s))) |->
                             <<Chosen(N(s))[x], <<<<0, 0, Lemma(B, N(s), Chosen(N(s))[x]), Path(B, N(s), Chosen(N(s))[x])>>>>>>]],
               log |-> log])
EmitLast == Len(log) = Depth_ => Emit
=============================================================================
