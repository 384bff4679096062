------------------------------ MODULE MCMetadata ------------------------------
(* Over a product of descriptions: documents say what was described, load to    *)
(* it, and a document with one leaf missing or of another kind is never both    *)
(* acceptable and to be refused.                                                *)
EXTENDS Metadata
CONSTANT Full
VARIABLES d, L, m
Sh == {<<>>, <<"1">>, <<"4294967296">>, <<"7", "20">>}
ShKind(s) == [i \in 1..Len(s) |-> IF s[i] = "4294967296" THEN "n64" ELSE "n32"]
Ch(s) == [i \in 1..Len(s) |-> "3"]
Ext2 == {<<"uri", "T">>, <<"uri", "T", "<i8">>}
Ds == {[shape |-> s, shapekind |-> ShKind(s), chunk |-> Ch(s), sep |-> p, dt |-> t,
        ext |-> IF t = "" THEN e ELSE <<>>, layout |-> o, codec |-> c,
        confkind |-> "n32", conf |-> IF c = "raw" THEN "" ELSE "5", fill |-> f, attrs |-> a, exts |-> x] :
       s \in Sh, p \in IF Full THEN {"/", "."} ELSE {"."}, t \in IF Full THEN {"", "bool", "u1", "<f2", ">u8", "r24"} ELSE {"", "r24"}, e \in Ext2,
       o \in IF Full THEN {"C", "F"} ELSE {"F"}, c \in IF Full THEN CodecIds ELSE {"raw", "lz4"}, f \in IF Full THEN {"null", "1"} ELSE {"1"},
       a \in {<<>>, << <<"k", "1">>, <<"x/y", "{}">> >>}, x \in IF Full THEN {<<>>, << <<"u", "none">>, <<"v", "{}">> >>} ELSE {<< <<"u", "none">>, <<"v", "{}">> >>}}
Init == d \in Ds /\ L = Leaves(d) /\ m = "none"
Replace(x, k) == (L \ {x}) \cup {<<x[1], k, x[3]>>}
Drop == \E x \in L : m' = x[1] /\ L' = {y \in L : y # x /\ y \notin Below(L, x[1] \o "/")}
Swap == \E x \in L, k \in {"str", "null", "bool", "num"} :
          k # x[2] /\ m' = x[1] /\ L' = {y \in Replace(x, k) : y \notin Below(L, x[1] \o "/")}
Next == m = "none" /\ (Drop \/ Swap) /\ UNCHANGED d
Spec == Init /\ [][Next]_<<d, L, m>>
Faithful == m = "none" => ViewOf(L) = View(d) /\ MustAccept(L)
Decided == ~(MustAccept(L) /\ MustReject(L))
(* a member without which there is no array *)
Needed == m \in {"", "/shape", "/data_type", "/chunk_grid", "/chunk_grid/chunk_shape", "/chunk_grid/type",
                 "/chunk_memory_layout"} => MustReject(L) \/ Kind(L, m) = "str"
===============================================================================
