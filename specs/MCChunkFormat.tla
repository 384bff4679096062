---------------------------- MODULE MCChunkFormat ----------------------------
(* The layout loses nothing and adds nothing, for all short chunks over a      *)
(* small alphabet of bytes.                                                   *)
EXTENDS ChunkFormat, FiniteSets, TLC
CONSTANT N
VARIABLES t, big, data
B == {0, 1, 255}
TypesC == {"bool", "u8", "u16", "r16", "r24", "i16"}
Alpha(x) == IF x = "bool" THEN {<<0>>, <<1>>} ELSE [1..Width(x) -> B]
Init == t \in TypesC /\ big \in BOOLEAN /\ data = <<>>
Next == Len(data) < N /\ \E x \in Alpha(t) : data' = Append(data, x) /\ UNCHANGED <<t, big>>
Spec == Init /\ [][Next]_<<t, big, data>>
RoundTrip == Elements(t, big, Layout(t, big, data), Len(data)) = data
Exact == Len(Layout(t, big, data)) = Len(data) * Width(t)
(* both orders hold the same bytes of each element, in mirrored places *)
Mirror == \A i \in 1..Len(data), j \in 1..Width(t) :
  LET w == Width(t) IN
  Layout(t, TRUE, data)[(i - 1) * w + j] =
    Layout(t, FALSE, data)[(i - 1) * w + (IF HasOrder(t) THEN w + 1 - j ELSE j)]
(* appending only appends: no cell depends on another *)
Prefix == Len(data) > 0 =>
  LET p == SubSeq(data, 1, Len(data) - 1) IN
  Layout(t, big, p) = SubSeq(Layout(t, big, data), 1, Len(p) * Width(t))
===============================================================================
