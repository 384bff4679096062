------------------------------ MODULE NumbersTrace ------------------------------
(* Which recorded histories of numbers stored and read are those of Numbers?    *)
EXTENDS Numbers, Json, IOUtils
Histories == ndJsonDeserialize(IOEnv.TRACE)
DeviateEnv == IOEnv.DEVIATE = "1"
VARIABLES h, l
Ev == Histories[h].ev
Step(e) ==
  /\ e.ok
  /\ CASE e.op = "create" -> Create(e.vals)
       [] e.op = "set" -> Set(e.vals)
       \* all attributes
       [] e.op = "list" -> Names(e.vals) = DOMAIN val \ {"fill"} /\ Read(e.vals, TRUE)
       [] e.op = "meta" -> Names(e.vals) = DOMAIN val /\ Read(e.vals, TRUE)
       \* a missing cell, by metadata that were loaded or given
       [] e.op = "cell" -> Read(e.vals, e.stored)
TInit == val = [x \in {} |-> 0] /\ used = {} /\ l = 1 /\ h \in 1..Len(Histories)
TNext == l =< Len(Ev) /\ Step(Ev[l]) /\ l' = l + 1 /\ h' = h
TSpec == TInit /\ [][TNext]_<<val, used, h, l>>
Finished == l > Len(Ev) => PrintT(<<"DONE", h, used>>)
=================================================================================
