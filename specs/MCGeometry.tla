------------------------------ MODULE MCGeometry ------------------------------
(* For all small extents, chunk extents and boxes: what is computed is what is *)
(* understood.                                                                *)
EXTENDS Geometry, TLC
CONSTANTS D1, C1, B1, D2, C2, B2
VARIABLES vshape, vcs, voff, vsh

Vec(n, S) == [1..n -> S]
Zero(n) == [i \in 1..n |-> 0]
Init == /\ \/ vshape \in Vec(1, 0..D1) /\ vcs \in Vec(1, 1..C1)
           \/ vshape \in Vec(2, 0..D2) /\ vcs \in Vec(2, 1..C2)
           \/ vshape = <<>> /\ vcs = <<>>
        /\ voff = Zero(Len(vshape)) /\ vsh = Zero(Len(vshape))
Pick == LET b == IF Len(vshape) = 1 THEN B1 ELSE B2
        IN voff' \in Vec(Len(vshape), 0..b) /\ vsh' \in Vec(Len(vshape), 0..b)
Next == voff = Zero(Len(vshape)) /\ vsh = voff /\ Pick /\ UNCHANGED <<vshape, vcs>>
Spec == Init /\ [][Next]_<<vshape, vcs, voff, vsh>>

Around == Cells([i \in Dims(vshape) |-> Extent(vshape, vcs)[i] + 2])
ExtentOK == \A i \in Dims(vshape) :
  LET e == Extent(vshape, vcs)[i] IN
    \/ (e - 1) * vcs[i] < vshape[i] /\ vshape[i] =< e * vcs[i]
    \/ vshape[i] = 0 /\ e = 0
BoundsOK == \A pos \in Around : InBounds(vshape, vcs, pos) <=> HoldsCell(vshape, vcs, pos)
CountOK == Cardinality({pos \in Around : HoldsCell(vshape, vcs, pos)}) = ProdI(Extent(vshape, vcs), 1)
TouchedOK == Touched(vshape, vcs, voff, vsh) = TouchedBy(vshape, vcs, voff, vsh, Around)
(* boxes: of (voff, vsh) and of the array's own bounds shifted by its chunk *)
Other == [i \in Dims(voff) |-> vcs[i]]
MeetOK ==
  LET m == BoxCells(voff, vsh) \cap BoxCells(Other, vshape)
  IN IF Disjoint(voff, vsh, Other, vshape) THEN m = {}
     ELSE m = BoxCells(MeetOff(voff, vsh, Other, vshape),
                [i \in Dims(voff) |-> MeetEnd(voff, vsh, Other, vshape)[i] - MeetOff(voff, vsh, Other, vshape)[i]])
(* the smallest box around two that are not empty: each face is touched *)
JoinOK ==
  (\A i \in Dims(voff) : vsh[i] > 0 /\ vshape[i] > 0) =>
  LET u == BoxCells(voff, vsh) \cup BoxCells(Other, vshape)
      lo == JoinOff(voff, vsh, Other, vshape)  hi == JoinEnd(voff, vsh, Other, vshape)
  IN /\ u \subseteq BoxCells(lo, [i \in Dims(voff) |-> hi[i] - lo[i]])
     /\ \A i \in Dims(voff) : (\E c \in u : c[i] = lo[i]) /\ (\E c \in u : c[i] = hi[i] - 1)
===============================================================================
