------------------------------- MODULE Geometry -------------------------------
(* The geometry of chunk grids and boxes, twice: as a user understands it     *)
(* (which cells are where) and as it can be computed for extents of any size. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

Dims(s) == 1..Len(s)
CeilQ(a, b) == IF a % b = 0 THEN a \div b ELSE a \div b + 1
RECURSIVE ProdI(_, _)
ProdI(s, i) == IF i > Len(s) THEN 1 ELSE s[i] * ProdI(s, i + 1)
RECURSIVE BoxI(_, _)
BoxI(s, i) == IF i > Len(s) THEN {<<>>}
              ELSE {<<x>> \o r : x \in 0..(s[i] - 1), r \in BoxI(s, i + 1)}
Cells(s) == BoxI(s, 1)
Shift(c, off) == [i \in Dims(c) |-> c[i] + off[i]]
BoxCells(off, sh) == {Shift(c, off) : c \in Cells(sh)}

(* --- as computed ---------------------------------------------------------- *)
Extent(shape, cs) == [i \in Dims(shape) |-> CeilQ(shape[i], cs[i])]
InBounds(shape, cs, pos) == Len(pos) = Len(shape)
                            /\ \A i \in Dims(pos) : pos[i] < Extent(shape, cs)[i]
Along(shape, cs, off, sh, i) ==
  LET hi == IF off[i] + sh[i] < shape[i] THEN off[i] + sh[i] ELSE shape[i]
  IN IF off[i] >= hi THEN {} ELSE (off[i] \div cs[i])..((hi - 1) \div cs[i])
RECURSIVE TouchFrom(_, _, _, _, _)
TouchFrom(shape, cs, off, sh, i) ==
  IF i > Len(off) THEN {<<>>}
  ELSE {<<x>> \o r : x \in Along(shape, cs, off, sh, i), r \in TouchFrom(shape, cs, off, sh, i + 1)}
Touched(shape, cs, off, sh) == TouchFrom(shape, cs, off, sh, 1)

Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
MeetOff(ao, as, bo, bs) == [i \in Dims(ao) |-> Max(ao[i], bo[i])]
MeetEnd(ao, as, bo, bs) == [i \in Dims(ao) |-> Min(ao[i] + as[i], bo[i] + bs[i])]
Disjoint(ao, as, bo, bs) == \E i \in Dims(ao) : MeetOff(ao, as, bo, bs)[i] >= MeetEnd(ao, as, bo, bs)[i]
JoinOff(ao, as, bo, bs) == [i \in Dims(ao) |-> Min(ao[i], bo[i])]
JoinEnd(ao, as, bo, bs) == [i \in Dims(ao) |-> Max(ao[i] + as[i], bo[i] + bs[i])]

(* --- as understood --------------------------------------------------------- *)
ChunkCells(cs, pos) == BoxCells([i \in Dims(pos) |-> pos[i] * cs[i]], cs)
HoldsCell(shape, cs, pos) == ChunkCells(cs, pos) \cap Cells(shape) # {}
TouchedBy(shape, cs, off, sh, P) ==
  {pos \in P : ChunkCells(cs, pos) \cap Cells(shape) \cap BoxCells(off, sh) # {}}
===============================================================================
