----------------------------- MODULE DisturbTrace -----------------------------
(* Which of the recorded histories with calls cut short (one per line of      *)
(* $TRACE) are behaviours of Disturb?  Prints DONE for each that is.  k: the   *)
(* call was done ("call"), ended with its process ("crash"), or was done       *)
(* while the storage failed ("fault").                                        *)
EXTENDS Disturb, Json, IOUtils

Histories == ndJsonDeserialize(IOEnv.TRACE)
TraceSuffix == ".json"
DeviateEnv == IOEnv.DEVIATE = "1"

VARIABLES h, l

Elems(s) == {s[i] : i \in 1..Len(s)}
AsOp(e) ==
  CASE e.op \in {"create_array", "set_attributes"} -> [e EXCEPT !.attrs = Elems(@)]
    [] OTHER -> e

Shows(e, r) ==
  IF r.t = "err" THEN e.res.t = "err" /\ (r.kind = "any" \/ e.res.v = r.kind)
  ELSE /\ e.res.t = "ok"
       /\ CASE r.t = "any" -> TRUE
            [] e.op \in {"exists", "array_exists", "delete_chunk"} -> e.res.v = r.v
            [] e.op = "list_attributes" -> Elems(e.res.v) = r.v
            [] e.op = "get_meta" -> e.res.v.meta = r.v.meta /\ Elems(e.res.v.attrs) = r.v.attrs
            [] e.op = "list_nodes" -> Elems(e.res.v) = r.v /\ Len(e.res.v) = Cardinality(r.v)
            [] e.op \in {"read_chunk", "read_chunk_into"} ->
                 /\ e.res.v.some = r.v.some
                 /\ (e.op = "read_chunk" /\ ~r.v.some) \/ e.res.v.pos = r.v.pos
                 /\ SameElements(e.res.v.data, r.v.data)
            [] e.op = "read_region" -> SameElements(e.res.v, r.v)
            [] OTHER -> TRUE

Ev == Histories[h].ev

Step(e) ==
  LET op == AsOp(e.e) IN
  CASE e.k = "call" -> \E o \in Undisturbed(op) : Shows(e.e, o.res) /\ Become(o.s)
    [] e.k = "crash" -> \E s \in Cut(op) : Become(s)
    [] e.k = "fault" -> \E o \in Faulty(op) : Shows(e.e, o.res) /\ Become(o.s)

Next == /\ l =< Len(Ev) /\ Step(Ev[l]) /\ l' = l + 1
        /\ UNCHANGED <<h, last, tick>>

TInit == /\ nodes = Empty /\ chunks = Empty /\ bufs = Empty /\ ghosts = {<<>>}
         /\ last = [op |-> [op |-> "init"], res |-> Ok("")] /\ tick = FALSE
         /\ brokenC = {} /\ brokenN = Empty /\ used = {}
         /\ l = 1 /\ h \in 1..Len(Histories) /\ entry = Histories[h].entry
TSpec == TInit /\ [][Next]_<<dstate, last, tick, h, l>>

Finished == l > Len(Ev) => PrintT(<<"DONE", h, used>>)
(* how far a history goes, for people *)
=============================================================================
