-------------------------------- MODULE PathsTrace --------------------------------
(* Recorded calls by all kinds of paths, decided by Paths.                         *)
EXTENDS Paths, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
ToSet(s) == {s[i] : i \in 1..Len(s)}
Good(e) ==
  /\ CallOK(e.op, e.path, e.tail, e.res, e.outside, e.outside2, e.inside, e.inside2)
  /\ MustWork(e.op, e.path, e.tail) =>
       /\ e.res = "ok" /\ e.found
       /\ e.new = <<FileOf(e.op, e.path, e.tail)>>
Init == l = 1
Next == /\ l =< Len(Trace) /\ l' = l + 1
        /\ IF Good(Trace[l]) THEN TRUE ELSE PrintT(<<"REJECTED", l, Trace[l]>>) /\ FALSE
Spec == Init /\ [][Next]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
===================================================================================
