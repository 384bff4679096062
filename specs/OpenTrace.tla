-------------------------------- MODULE OpenTrace --------------------------------
(* Recorded openings of directories, decided by Open.                             *)
EXTENDS Open, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, disk, hs,
  verdict      \* what opening the present entry point came to: all openings agree
Entry(x) == [st |-> x.st, json |-> x.json, leaves |-> {x.leaves[i] : i \in 1..Len(x.leaves)}, raw |-> x.raw]
Disk(x) == [dir |-> x.dir, entry |-> Entry(x.entry), rest |-> x.rest]
NoHandle == [t |-> "none", version |-> ""]
Init == l = 1 /\ disk = [dir |-> FALSE, entry |-> NoEntry, rest |-> ""] /\ hs = <<NoHandle, NoHandle>>
        /\ verdict = "none"
Agrees(e) == verdict = "none" \/ disk.entry.st # "doc" \/ e.res.t = verdict
Good(e) ==
  CASE e.op = "open" -> OpenOK(disk, e.res, Disk(e.disk)) /\ Agrees(e)
    [] e.op = "create" -> CreateOK(disk, e.res, Disk(e.disk)) /\ Agrees(e)
    [] e.op = "version" -> /\ Disk(e.disk) = disk
                           /\ hs[e.h].t = "ok" => e.res.t = "ok" /\ VersionOK(hs[e.h], e.res.version)
Next == /\ l =< Len(Trace) /\ l' = l + 1
        /\ LET e == Trace[l] IN
           /\ disk' = Disk(e.disk)
           /\ verdict' = IF Disk(e.disk) # disk \/ e.op \notin {"open", "create"} \/ disk.entry.st # "doc"
                         THEN (IF e.op = "put" \/ Disk(e.disk) # disk THEN "none" ELSE verdict)
                         ELSE e.res.t
           /\ IF e.op = "put" THEN hs' = IF e.first THEN <<NoHandle, NoHandle>> ELSE hs
              ELSE /\ IF Good(e) THEN TRUE ELSE PrintT(<<"REJECTED", l, e>>) /\ FALSE
                   /\ hs' = IF e.op # "version" /\ e.res.t = "ok"
                            THEN [hs EXCEPT ![e.h] = [t |-> "ok", version |-> e.res.version]] ELSE hs
Spec == Init /\ [][Next]_<<l, disk, hs, verdict>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
==================================================================================
