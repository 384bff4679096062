--------------------------- MODULE ConcurrentTrace ---------------------------
(* Which of the recorded concurrent histories (one per line of $TRACE, each  *)
(* the sequence of invocations and returns in the order in which they        *)
(* happened) are behaviours of Concurrent?  Prints DONE for each that is.    *)
EXTENDS Concurrent, Json, IOUtils

Histories == ndJsonDeserialize(IOEnv.TRACE)
TraceSuffix == ".json"
DeviateEnv == IOEnv.DEVIATE = "1"

VARIABLES h, l

Elems(s) == {s[i] : i \in 1..Len(s)}
AsOp(e) ==
  CASE e.op \in {"create_array", "set_attributes"} -> [e EXCEPT !.attrs = Elems(@)]
    [] OTHER -> e

Shows(e, r) ==
  IF r.t = "err" THEN e.res.t = "err" /\ (r.kind = "any" \/ e.res.v = r.kind)
  ELSE /\ e.res.t = "ok"
       /\ CASE e.op \in {"exists", "array_exists", "delete_chunk"} -> e.res.v = r.v
            [] e.op = "list_attributes" -> Elems(e.res.v) = r.v
            [] e.op = "get_meta" -> e.res.v.meta = r.v.meta /\ Elems(e.res.v.attrs) = r.v.attrs
            [] e.op = "probe" -> Elems(e.res.v) = r.v
            [] e.op \in {"read_chunk", "read_chunk_into"} ->
                 /\ e.res.v.some = r.v.some
                 /\ (e.op = "read_chunk" /\ ~r.v.some) \/ e.res.v.pos = r.v.pos
                 /\ SameElements(e.res.v.data, r.v.data)
            [] e.op = "read_region" -> SameElements(e.res.v, r.v)
            [] OTHER -> TRUE

Listed(e, p) == /\ p.lo \subseteq Elems(e.res.v) /\ Elems(e.res.v) \subseteq p.hi
                /\ Len(e.res.v) = Cardinality(Elems(e.res.v))
Ev == Histories[h].ev

(* nothing is lost by letting calls take effect only when one returns *)
Next ==
  \/ /\ l =< Len(Ev) /\ Ev[l].k = "inv"
     /\ Invoke(Ev[l].t, AsOp(Ev[l].e)) /\ l' = l + 1 /\ h' = h
  \/ /\ l =< Len(Ev) /\ Ev[l].k = "ret"
     /\ pend[Ev[l].t].ph = "done" /\ Shows(Ev[l].e, pend[Ev[l].t].res)
     /\ Ev[l].e.op = "list_nodes" => Listed(Ev[l].e, pend[Ev[l].t])
     /\ Return(Ev[l].t) /\ l' = l + 1 /\ h' = h
  \/ /\ l =< Len(Ev) /\ Ev[l].k = "ret" /\ pend[Ev[l].t].ph # "done"
     /\ \E t \in DOMAIN pend : Silent(t)
     /\ UNCHANGED <<h, l>>
  \/ \* a delete that was done may still look
     /\ l =< Len(Ev) /\ Ev[l].k = "ret" /\ pend[Ev[l].t].ph = "done"
     /\ \E t \in DOMAIN pend : Observe(t) \/ (pend[Ev[l].t].op.op = "delete_chunk" /\ Effect(t))
     /\ UNCHANGED <<h, l>>

ConcInit == CInit /\ l = 1 /\ h \in {i \in 1..Len(Histories) : ~Histories[i].dead}
ConcSpec == ConcInit /\ [][Next]_<<cvars, h, l>>

Finished == l > Len(Ev) => PrintT(<<"DONE", h, used>>)
=============================================================================
