-------------------------------- MODULE HashEnc --------------------------------
(***************************************************************************)
(* What feeding a value to a hasher writes (C18).  Values are terms over     *)
(* the types the crate implements Hashable for; Enc is the byte string they  *)
(* stand for.  Integers carry their bytes in memory order (native order), so *)
(* the encoding of an integer is its representation.  The default leaf and   *)
(* interior hash are byte strings over the elements.                         *)
(***************************************************************************)
EXTENDS MerkleCore

CONSTANTS Deep      \* nest composites twice

RECURSIVE Cat(_, _)
Cat(f, k) == IF k = 0 THEN <<>> ELSE Cat(f, k - 1) \o f[k]

Rep(x, w) == [j \in 1..w |-> x]
IntTypes == {<<"u8", 1>>, <<"i8", 1>>, <<"u16", 2>>, <<"i16", 2>>, <<"u32", 4>>, <<"i32", 4>>, <<"u64", 8>>, <<"i64", 8>>,
             <<"usize", 8>>, <<"isize", 8>>, <<"u128", 16>>, <<"i128", 16>>}
(* representations that tell the bytes apart, and the extremes *)
Reps(w) == {Rep(0, w), Rep(255, w), [j \in 1..w |-> j], [j \in 1..w |-> IF j = 1 THEN 1 ELSE 0],
            [j \in 1..w |-> IF j = w THEN 128 ELSE 0], [j \in 1..w |-> IF j = w THEN 127 ELSE 255]}
Ints == UNION {{<<ty[1], r>> : r \in Reps(ty[2])} : ty \in IntTypes}
Bools == {<<"bool", <<0>>>>, <<"bool", <<1>>>>}
(* code points as four bytes *)
Chars == {<<"char", <<0, 0, 0, 0>>>>, <<"char", <<97, 0, 0, 0>>>>, <<"char", <<233, 0, 0, 0>>>>, <<"char", <<172, 32, 0, 0>>>>, <<"char", <<0, 246, 1, 0>>>>}
(* UTF-8 *)
Texts == {<<>>, <<0>>, <<97>>, <<97, 98, 99>>, <<226, 130, 172>>, <<240, 159, 152, 128>>, <<97, 0, 98>>, <<195, 169, 195, 169>>}
Strs == {<<ty, x>> : ty \in {"str", "String"}, x \in Texts}
Blob(k) == [j \in 1..k |-> (j * 37) % 256]
Text(k) == [j \in 1..k |-> 33 + ((j * 7) % 90)]
(* lengths around every size a buffer, a length byte or a block might have *)
Long == {3, 4, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 4096} \cup (IF Deep THEN (0..70) \cup {511, 512, 513, 1023, 1024, 1025, 4095, 4097, 8192, 8193} ELSE {})
Arrays == {0, 1, 2, 3, 4, 5, 7, 8, 9, 16, 31, 32, 33, 63, 64, 65, 128, 129, 200, 255, 256, 257, 1000, 4096}
Blobs == {<<"vec", Blob(k)>> : k \in {0, 1, 2} \cup Long} \cup {<<"arr", Blob(k)>> : k \in Arrays} \cup {<<"vec", Rep(0, k)>> : k \in {7, 64, 65, 300}} \cup {<<"arr", Rep(0, 5)>>}
         \cup {<<ty, Text(k)>> : ty \in {"str", "String"}, k \in Long}
Atoms == Ints \cup Bools \cup Chars \cup Strs \cup Blobs

(* a few atoms of different widths, for the composites *)
Pick == <<<<"u8", <<7>>>>, <<"u32", <<1, 2, 3, 4>>>>, <<"str", <<97, 98>>>>, <<"bool", <<1>>>>, <<"vec", <<9, 8, 7>>>>, <<"i64", Rep(255, 8)>>,
          <<"arr", <<>>>>, <<"char", <<172, 32, 0, 0>>>>, <<"u16", <<0, 1>>>>, <<"String", <<120>>>>, <<"u128", [j \in 1..16 |-> j]>>, <<"usize", [j \in 1..8 |-> 9 - j]>>>>
Roll(k, o) == [j \in 1..k |-> Pick[((j + o) % 12) + 1]]
Tuples == {<<"tuple", Roll(k, o)>> : k \in 0..12, o \in {0, 1, 5}} \cup {<<"tuple", <<x, y>>>> : x \in Strs, y \in Strs}
(* slices of one type (the crate feeds them at once) and of mixed parts; arrays of every small length *)
(* and around the powers of two as elements of a slice                                               *)
ArrTypes == {<<"arr", k>> : k \in {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 20, 21, 23, 24, 25, 28, 31, 32, 33, 40, 47, 48, 49, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257}}
PrimSlices == {<<"slice", IF ty \in ArrTypes THEN "arr" ELSE ty[1], [j \in 1..k |-> [x \in 1..ty[2] |-> (16 * j + x) % 256]]>> : ty \in IntTypes \cup ArrTypes, k \in {0, 1, 2, 3, 5}}
(* slices of texts and byte vectors of one type *)
TextSlices == {<<"slice", ty, [j \in 1..k |-> IF ty = "vecs" THEN Blob((j * o) % 11) ELSE Text((j * o) % 11)]>> : ty \in {"strs", "Strings", "vecs"}, k \in {0, 1, 2, 3, 9}, o \in {1, 4, 7}}
MixedSlices == {<<"mixed", Roll(k, o)>> : k \in {0, 1, 2, 3, 7}, o \in {0, 3}}
LongSlices == {<<"slice", IF ty \in ArrTypes THEN "arr" ELSE ty[1], [j \in 1..k |-> [x \in 1..ty[2] |-> (16 * j + x) % 256]]>> : ty \in IntTypes \cup {<<"arr", 5>>, <<"arr", 8>>, <<"arr", 32>>, <<"arr", 33>>},
                                 k \in {3, 4, 8, 9, 16, 17, 32, 33, 64, 65, 129, 257} \cup (IF Deep THEN (6..66) \cup {1000, 2049} ELSE {})}
(* long parts inside composites: where one value ends must not show *)
LongParts == {<<w, <<x, Pick[1], y>>>> : w \in {"tuple", "mixed"}, x \in {<<"vec", Blob(65)>>, <<"str", Text(129)>>, <<"arr", Blob(200)>>}, y \in {<<"vec", Blob(300)>>, <<"String", Text(64)>>}}
             \cup {<<"mixed", [j \in 1..k |-> Pick[(j % 12) + 1]]>> : k \in {12, 33, 70}}
Refs == {<<r, x>> : r \in {"ref", "mut", "refref"}, x \in {Pick[j] : j \in 1..12}}
Composites == Tuples \cup PrimSlices \cup TextSlices \cup MixedSlices \cup Refs \cup LongParts
Nested == IF Deep THEN {<<w, <<x, Pick[2], y>>>> : w \in {"tuple", "mixed"}, x \in Tuples, y \in MixedSlices \cup Refs} \cup {<<"ref", x>> : x \in Composites}
          ELSE {<<w, <<x, Pick[2], y>>>> : w \in {"tuple", "mixed"}, x \in {<<"tuple", Roll(k, 0)>> : k \in {0, 1, 3, 12}}, y \in MixedSlices \cup {<<"ref", Pick[1]>>}}
               \cup {<<"ref", x>> : x \in {<<"tuple", Roll(3, 0)>>, <<"mixed", Roll(3, 0)>>}}
Values == Atoms \cup LongSlices \cup Composites \cup Nested

RECURSIVE Enc(_)
Enc(v) == CASE v[1] \in {"tuple", "mixed"} -> Cat([j \in 1..Len(v[2]) |-> Enc(v[2][j])], Len(v[2]))
            [] v[1] = "slice" /\ v[2] \in {"strs", "Strings", "vecs"} -> Cat(v[3], Len(v[3]))
            [] v[1] = "slice" -> IF Len(v[3]) = 0 THEN <<>>
                                   ELSE LET w == Len(v[3][1]) IN [x \in 1..(w * Len(v[3])) |-> v[3][((x - 1) \div w) + 1][((x - 1) % w) + 1]]
            [] v[1] \in {"ref", "mut", "refref"} -> Enc(v[2])
            [] OTHER -> v[2]

-----------------------------------------------------------------------------
(* default hashes over elements *)
LeafBytes(e) == <<0>> \o e
NodeBytes(kids) == <<1>> \o Cat(kids, Len(kids))
Elems == {Blob(k) : k \in {1, 2, 5, 31, 32, 33, 63, 64}}
Tiny == {<<x>> : x \in 0..2} \cup {<<x, y>> : x \in 0..2, y \in 0..2}
(* no leaf input is an interior input; interior inputs of one element size and arity are injective *)
Separated == /\ \A e \in Tiny, ks \in (Tiny \X Tiny) : LeafBytes(e) # NodeBytes(ks)
             /\ \A w \in {1, 2} : LET T == {e \in Tiny : Len(e) = w} IN
                  \A p \in T \X T, q \in T \X T : NodeBytes(p) = NodeBytes(q) => p = q

VARIABLE case
Init == \/ \E v \in Values : case = <<"value", v>>
        \/ \E e \in Elems : case = <<"leaf", e>>
        \/ \E w \in {1, 2, 5, 32, 33, 64}, k \in {1, 2, 3, 4, 5, 8, 16, 32, 64, 128} : case = <<"node", [j \in 1..k |-> [x \in 1..w |-> (j * 16 + x) % 256]]>>
        \/ \E how \in {"const", "mut"}, to \in {"value", "slice", "text"}, k \in {1, 2, 3, 300} : case = <<"pointer", <<how, to, k>>>>
Next == UNCHANGED case
(* a raw pointer is its address; one that carries a length is its address and the length *)
Bytes == CASE case[1] = "value" -> Enc(case[2]) [] case[1] = "leaf" -> LeafBytes(case[2]) [] case[1] = "node" -> NodeBytes(case[2]) [] OTHER -> <<>>
Words == IF case[1] # "pointer" THEN <<>> ELSE IF case[2][2] = "value" THEN <<"address">> ELSE <<"address", "length">>
AllBytes == \A j \in 1..Len(Bytes) : Bytes[j] \in 0..255
Emit == Say([k |-> "enc", what |-> case[1], v |-> case[2], bytes |-> Bytes, words |-> Words])
ASSUME Separated
=============================================================================
