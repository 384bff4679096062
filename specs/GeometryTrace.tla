----------------------------- MODULE GeometryTrace -----------------------------
(* Recorded results of the library's geometry, decided by Geometry (small      *)
(* numbers) and by the same definitions over BigNat (any 64 bit number).      *)
EXTENDS Geometry, BigNat, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Elems(s) == {s[i] : i \in 1..Len(s)}
NoRep(s) == Len(s) = Cardinality(Elems(s))

(* an iterator's items, and the exact remaining counts it reported: before    *)
(* each item, and after the last                                             *)
IterOK(e, want) ==
  /\ Elems(e.items) = want /\ NoRep(e.items)
  /\ Len(e.lens) = Len(e.items) + 1
  /\ \A i \in 1..Len(e.lens) : e.lens[i] = Len(e.items) + 1 - i
  /\ e.hints /\ ~e.again /\ e.after = 0

Small(e) ==
  CASE e.op = "grid" ->
         /\ e.extent = Extent(e.shape, e.cs) /\ e.ndim = Len(e.shape)
         /\ e.chunks = ProdI(Extent(e.shape, e.cs), 1)
         /\ e.elements = ProdI(e.shape, 1) /\ e.chunkelements = ProdI(e.cs, 1)
         /\ e.bounds.off = [i \in Dims(e.shape) |-> 0] /\ e.bounds.shape = e.shape
    [] e.op = "in_bounds" -> e.res = InBounds(e.shape, e.cs, e.pos)
    [] e.op = "coords" -> IterOK(e, Cells(Extent(e.shape, e.cs)))
    [] e.op = "bounded" -> IterOK(e, Touched(e.shape, e.cs, e.off, e.sh))
    [] e.op = "chunk_bounds" -> e.off = [i \in Dims(e.pos) |-> e.pos[i] * e.cs[i]] /\ e.sh = e.cs
    [] e.op = "meet" ->
         IF Disjoint(e.ao, e.as, e.bo, e.bs) THEN e.empty /\ \E i \in Dims(e.sh) : e.sh[i] = 0
         ELSE /\ e.off = MeetOff(e.ao, e.as, e.bo, e.bs)
              /\ Shift(e.sh, e.off) = MeetEnd(e.ao, e.as, e.bo, e.bs) /\ ~e.empty
              /\ e.end = MeetEnd(e.ao, e.as, e.bo, e.bs)
    [] e.op = "join" ->
         /\ e.off = JoinOff(e.ao, e.as, e.bo, e.bs)
         /\ Shift(e.sh, e.off) = JoinEnd(e.ao, e.as, e.bo, e.bs) /\ ~e.empty
    [] e.op = "sub" ->
         /\ Shift(e.off, e.bo) = e.ao /\ e.sh = e.as

(* e is the number of chunks of extent b that d needs *)
IsCeil(x, d, b) == Leq(d, Mul(x, b)) /\ (x = <<>> \/ Less(Mul(x, b), Add(d, b)))
Holds(pos, d, b) == Less(Mul(pos, b), d)
(* floor(o / b) *)
IsFloor(x, o, b) == Leq(Mul(x, b), o) /\ Less(o, Mul(Add(x, One), b))
Hi(e, i) == MinB(Add(e.off[i], e.sh[i]), e.shape[i])
Run(x) == \A j \in 1..(Len(x) - 1) : x[j + 1] = Add(x[j], One)
(* along: the positions found along each dimension, in increasing order *)
AlongOK(e, i) == LET x == e.along[i] hi == Hi(e, i) IN
  /\ x # <<>> /\ Run(x) /\ IsFloor(x[1], e.off[i], e.cs[i])
  /\ \* the last one holds the cell before hi
     LET z == x[Len(x)] IN Less(Mul(z, e.cs[i]), hi) /\ Leq(hi, Mul(Add(z, One), e.cs[i]))

Big(e) ==
  CASE e.op = "grid" ->
         /\ Len(e.extent) = Len(e.shape)
         /\ \A i \in Dims(e.shape) : IsCeil(e.extent[i], e.shape[i], e.cs[i])
         /\ ~e.fits \/ e.chunks = ProdB(e.extent, 1)
    [] e.op = "in_bounds" -> e.res = (Len(e.pos) = Len(e.shape) /\
                               \A i \in Dims(e.pos) : Holds(e.pos[i], e.shape[i], e.cs[i]))
    [] e.op = "chunk_bounds" ->
         /\ \A i \in Dims(e.pos) : e.off[i] = Mul(e.pos[i], e.cs[i]) /\ e.sh[i] = e.cs[i]
    [] e.op = "bounded" ->
         IF \E i \in Dims(e.shape) : Leq(Hi(e, i), e.off[i])
         THEN e.count = 0 /\ e.lens = <<0>>
         ELSE /\ \A i \in Dims(e.shape) : AlongOK(e, i)
              \* all combinations, once each
              /\ e.count = ProdI([i \in Dims(e.shape) |-> Len(e.along[i])], 1)
              /\ e.distinct /\ Len(e.lens) = e.count + 1
              /\ \A i \in 1..Len(e.lens) : e.lens[i] = e.count + 1 - i
    [] e.op = "meet" ->
         LET o == [i \in Dims(e.ao) |-> MaxB(e.ao[i], e.bo[i])]
             h == [i \in Dims(e.ao) |-> MinB(Add(e.ao[i], e.as[i]), Add(e.bo[i], e.bs[i]))]
         IN IF \E i \in Dims(o) : Leq(h[i], o[i]) THEN e.empty
            ELSE e.off = o /\ ~e.empty /\ \A i \in Dims(o) : Add(e.off[i], e.sh[i]) = h[i]
    [] e.op = "join" ->
         LET o == [i \in Dims(e.ao) |-> MinB(e.ao[i], e.bo[i])]
             h == [i \in Dims(e.ao) |-> MaxB(Add(e.ao[i], e.as[i]), Add(e.bo[i], e.bs[i]))]
         IN e.off = o /\ \A i \in Dims(o) : Add(e.off[i], e.sh[i]) = h[i]
    [] e.op = "sub" -> \A i \in Dims(e.ao) : Add(e.off[i], e.bo[i]) = e.ao[i] /\ e.sh[i] = e.as[i]

Init == l = 1
Next == /\ l =< Len(Trace) /\ l' = l + 1
        /\ LET e == Trace[l] IN
           IF ~e.failed /\ (IF e.big THEN Big(e) ELSE Small(e)) THEN TRUE
           ELSE PrintT(<<"REJECTED", l, e>>) /\ FALSE
Spec == Init /\ [][Next]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
===============================================================================
