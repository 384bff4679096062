-------------------------------- MODULE TypesTrace --------------------------------
(* Recorded calls by every type on arrays of every type, decided by Types.        *)
EXTENDS Types, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st
Store(s) == [p \in 0..(N - 1) |-> s[p + 1]]
(* the caller's chunk: read into when there is one, else as it was; when refused, *)
(* its content is not specified                                                     *)
Buffer(e) == e.c.c = "read_chunk_into" /\ e.r.t = "ok" /\ ~e.r.some => e.r.v = e.c.data
Good(e) == /\ Allowed(e.d, e.c, st, e.r, Store(e.after))
           /\ Buffer(e)
           /\ ~e.strange               \* no other key, no change of the metadata
Init == l = 1 /\ st = [p \in 0..(N - 1) |-> Absent]
Next == /\ l =< Len(Trace) /\ l' = l + 1
        /\ LET e == Trace[l] IN
           IF e.op = "put" THEN st' = Store(e.after)
           ELSE /\ st' = Store(e.after)
                /\ IF Good(e) THEN TRUE ELSE PrintT(<<"REJECTED", l, <<st, e>>>>) /\ FALSE
Spec == Init /\ [][Next]_<<l, st>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
===================================================================================
