-------------------------------- MODULE FillTrace --------------------------------
(* Fill values as read from the library, decided by Fill.                       *)
EXTENDS Fill, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Result(e, r) == /\ r.t # "panic"
                /\ r.t = "ok" => \A i \in 1..Len(r.bits) : Denotes(e.v, e.type, r.bits[i])
                /\ MustSucceed(e.v, e.type) => r.t = "ok" /\ Len(r.bits) > 0
Good(e) ==
  \* by the metadata, a region of absent chunks, a region in part of a chunk,
  \* and the rest of a chunk created by a partial write
  \A i \in 1..Len(e.res) : Result(e, e.res[i])
Init == l = 1
Next == /\ l =< Len(Trace) /\ l' = l + 1
        /\ IF Good(Trace[l]) THEN TRUE ELSE PrintT(<<"REJECTED", l, Trace[l]>>) /\ FALSE
Spec == Init /\ [][Next]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
==================================================================================
