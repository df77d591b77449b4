------------------------------ MODULE TreeBuild ------------------------------
(***************************************************************************)
(* The row-by-row construction as the stores carry it out, against the      *)
(* definition of the tree in MerkleCore.  One step hashes one chunk of the  *)
(* current row; when a row is complete the cursors move up.                 *)
(*   kind "full": the store keeps every row (memory, mmap, disk)            *)
(*   kind "lc"  : the level cache cuts each row that is to be discarded off *)
(*                the front of its file as soon as the next row is there    *)
(* Cells hold node names; Blank is unwritten, Bad is a value of no tree.    *)
(***************************************************************************)
EXTENDS MerkleCore

CONSTANTS Arities, MaxLeaves, Chunk

VARIABLES b, n, kind, r, file, len, level, width, lni, off, pc
vars == <<b, n, kind, r, file, len, level, width, lni, off, pc>>

Blank == -2
Bad == NoNode

Sizes(a) == {s \in 2..MaxLeaves : TreeSize(a, s)}

HashOf(cs, h) == HashName(b, n, cs, h)

Init ==
    /\ b \in Arities
    /\ n \in Sizes(b)
    /\ kind \in {"full", "lc"}
    /\ r \in IF kind = "lc" THEN 0..(Rows(b, n) - 2) ELSE {0}
    /\ file = Iota(0, n) \o [x \in 1..(TreeLen(b, n) - n) |-> Blank]
    /\ len = n
    /\ level = 0 /\ width = n /\ lni = 0 /\ off = 0
    /\ pc = "chunk"

cis == CacheStart(b, n, r)

ReadStart == IF level = 0 THEN 0
             ELSE IF kind = "lc" THEN (IF lni < cis THEN 0 ELSE lni - cis)
             ELSE lni
WriteStart == IF level = 0 THEN len
              ELSE IF kind = "lc"
                   THEN (IF lni < cis THEN width ELSE lni + width - cis)
                   ELSE lni + width

(* hash the chunk of the row that begins at offset off *)
DoChunk ==
    /\ pc = "chunk" /\ width > 1 /\ off < width
    /\ LET size  == Min(Chunk, width - off)
           src   == ReadStart + off
           dst   == WriteStart + off \div b
           nodes == [i \in 1..(size \div b) |->
                       HashOf([c \in 1..b |-> file[src + (i - 1) * b + c]], level)]
       IN  file' = [p \in 1..Len(file) |->
                      IF p > dst /\ p <= dst + Len(nodes) THEN nodes[p - dst] ELSE file[p]]
    /\ off' = off + Chunk
    /\ UNCHANGED <<b, n, kind, r, len, level, width, lni, pc>>

(* the row is complete *)
RowDone ==
    /\ pc = "chunk" /\ width > 1 /\ off >= width
    /\ file' = IF kind = "lc" /\ lni < cis THEN SubSeq(file, width + 1, Len(file)) ELSE file
    /\ lni' = lni + width
    /\ level' = level + 1
    /\ width' = width \div b
    /\ len' = IF kind = "lc" THEN lni' ELSE len + width'
    /\ off' = 0
    /\ UNCHANGED <<b, n, kind, r, pc>>

Finish ==
    /\ pc = "chunk" /\ width = 1
    /\ len' = IF kind = "lc" THEN len + 1 ELSE len
    /\ pc' = "done"
    /\ UNCHANGED <<b, n, kind, r, file, level, width, lni, off>>

Next == DoChunk \/ RowDone \/ Finish
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
NoBadValue == \A p \in 1..Len(file) : file[p] # Bad
DoneExact ==
    pc = "done" =>
      /\ len = TreeLen(b, n)
      /\ level + 1 = Rows(b, n)
      /\ kind = "full" => file = Iota(0, TreeLen(b, n))
      /\ kind = "lc" => file = Iota(cis, TreeLen(b, n))
      /\ file[Len(file)] = Root(b, n)
(* no row is hashed before the row below it is complete *)
RowOrder ==
    \A p \in 1..Len(file) :
      LET k == file[p] IN
      (kind = "full" /\ k >= n) => \A c \in Range(Kids(b, n, k)) : file[c + 1] = c
=============================================================================
