-------------------------------- MODULE BuildsTrace --------------------------------
(* Recorded calls of programs of several builds on one hierarchy, decided by       *)
(* Builds.  The state is what the calls so far are known to have left: where a     *)
(* call may be done or refused, what it answered says which.                       *)
EXTENDS Builds, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st
Build(e) == {e.b[i] : i \in 1..Len(e.b)}
Call(e) == [e EXCEPT !.b = Build(e)]
After(e) == IF e.r.t # "ok" THEN st
            ELSE CASE e.c = "create" -> With(st, e.path, New(e))
                   [] e.c = "write" /\ e.path \in DOMAIN st ->
                        [st EXCEPT ![e.path].chunks = With(@, e.pos, e.data)]
                   [] e.c = "setattrs" /\ e.path \in DOMAIN st -> [st EXCEPT ![e.path].attrs = e.attrs]
                   [] e.c = "remove" -> Without(st, e.path)
                   [] OTHER -> st
(* no file is changed by what is refused, or only looks                              *)
Quiet(e) == e.r.t = "err" \/ e.c \in {"parse", "show", "meta", "read", "exists", "array_exists", "attrs"}
Init == l = 1 /\ st = [p \in {} |-> ""]
Next == /\ l =< Len(Trace) /\ l' = l + 1
        /\ LET e == Trace[l] IN
           /\ st' = After(e)
           /\ IF Allowed(st, Call(e), e.r, st') /\ ~(e.touched /\ Quiet(e)) THEN TRUE
              ELSE PrintT(<<"REJECTED", l, <<st, e>>>>) /\ FALSE
Spec == Init /\ [][Next]_<<l, st>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
====================================================================================
