--------------------------- MODULE HierarchyTrace ---------------------------
(* Decides whether a recording of calls on the library (one JSON record per  *)
(* line of $TRACE) is a behaviour of Hierarchy.                             *)
EXTENDS Hierarchy, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l          \* number of the next line
TraceSuffix == IOEnv.SUFFIX

Elems(s) == {s[i] : i \in 1..Len(s)}
Pairs(s) == Elems(s)      \* attributes are recorded as lists of pairs

(* Lines are recorded with lists where the model has sets. *)
AsOp(e) ==
  CASE e.op \in {"create_array", "set_attributes"} -> [e EXCEPT !.attrs = Pairs(@)]
    [] OTHER -> e

(* Does the recorded result show the outcome's result? *)
Shows(e, o) ==
  IF o.res.t = "err"
  THEN e.res.t = "err" /\ (o.res.kind = "any" \/ e.res.v = o.res.kind)
  ELSE /\ e.res.t = "ok"
       /\ CASE o.res.t = "any" -> TRUE
            [] e.op \in {"exists", "array_exists", "delete_chunk"} -> e.res.v = o.res.v
            [] e.op = "list_attributes" -> Pairs(e.res.v) = o.res.v
            [] e.op = "get_meta" -> /\ e.res.v.meta = o.res.v.meta
                                    /\ Pairs(e.res.v.attrs) = o.res.v.attrs
            [] e.op = "list_nodes" -> /\ Elems(e.res.v) = o.res.v
                                      \* stores of keys have no empty directories
                                      /\ IOEnv.STORE # "fs" => o.res.v = Children(e.path)
                                      /\ Len(e.res.v) = Cardinality(o.res.v)
            [] e.op \in {"read_chunk", "read_chunk_into", "buf_like", "buf_size"} ->
                 /\ e.res.v.some = o.res.v.some
                 /\ (e.op = "read_chunk" /\ ~o.res.v.some) \/ e.res.v.pos = o.res.v.pos
                 /\ SameElements(e.res.v.data, o.res.v.data)
            [] e.op = "view_chunk" ->
                 /\ e.res.v.some = o.res.v.some /\ e.res.v.same
                 /\ e.res.v.off = o.res.v.off /\ e.res.v.shape = o.res.v.shape
                 /\ e.res.v.nd = o.res.v.nd /\ SameElements(e.res.v.data, o.res.v.data)
            [] e.op = "read_region" -> SameElements(e.res.v, o.res.v)
            [] OTHER -> TRUE

(* "reset": another history begins.  "dump": the whole content of the store *)
(* as found on its medium: documents, and chunk values (keys, and their      *)
(* elements where they were decoded independently).  "keys": the keys only.  *)
Reset(e) == nodes' = Empty /\ chunks' = Empty /\ bufs' = Empty /\ ghosts' = {<<>>}

ChunkAt(key) == CHOOSE c \in DOMAIN chunks : ChunkKey(c[1], c[2], chunks[c].sep) = key
(* entry: whether the entry point is kept as a value of the store too *)
AllKeys(e) == Keys \cup (IF e.entry THEN {EntryKey} ELSE {})
KeysOK(e) == /\ Elems(e.keys) = AllKeys(e)
             /\ Len(e.keys) = Cardinality(AllKeys(e))

(* What the storage interface itself lists below a prefix ending in "/".     *)
StartsWith(k, pre) == Len(k) >= Len(pre) /\ SubSeq(k, 1, Len(pre)) = pre
RECURSIVE SlashAt(_, _)
SlashAt(k, i) == IF i > Len(k) THEN 0 ELSE IF SubSeq(k, i, i) = "/" THEN i ELSE SlashAt(k, i + 1)
BelowPrefix(e) == {k \in AllKeys(e) : StartsWith(k, e.prefix)}
DirKeys(e) == {k \in BelowPrefix(e) : SlashAt(k, Len(e.prefix) + 1) = 0}
DirPrefixes(e) == {SubSeq(k, 1, SlashAt(k, Len(e.prefix) + 1) - 1) : k \in BelowPrefix(e) \ DirKeys(e)}
ListOK(e) == IF e.what = "list_dir"
             THEN /\ Elems(e.keys) = DirKeys(e) /\ Len(e.keys) = Cardinality(DirKeys(e))
                  /\ DirPrefixes(e) \subseteq Elems(e.prefixes)
                  /\ Len(e.prefixes) = Cardinality(Elems(e.prefixes))
                  \* a store of directories may show empty ones
                  /\ e.entry \/ DirPrefixes(e) = Elems(e.prefixes)
             ELSE /\ Elems(e.keys) = BelowPrefix(e) /\ Len(e.keys) = Cardinality(BelowPrefix(e))

(* the URI of a chunk names the place its value is (or would be) at *)
UriOK(e) == e.uri = e.base \o ChunkKey(e.path, e.pos, e.sep)
            /\ e.isfile = (<<e.path, e.pos>> \in DOMAIN chunks)
DocOf(d) == [key |-> d.key, kind |-> d.kind, meta |-> d.meta, attrs |-> Pairs(d.attrs)]
DumpOK(e) ==
  /\ {DocOf(d) : d \in Elems(e.docs)} = NodeDocs
  /\ Len(e.docs) = Cardinality(NodeDocs)
  /\ {v.key : v \in Elems(e.vals)} = ChunkKeys
  /\ Len(e.vals) = Cardinality(ChunkKeys)
  /\ \A v \in Elems(e.vals) : SameElements(v.data, chunks[ChunkAt(v.key)].data)

TraceInit == Init /\ l = 1

Say(e, what) == PrintT(<<"REJECTED", l, e, "ALLOWED", what>>) /\ FALSE

TraceNext ==
  /\ l =< Len(Trace)
  /\ l' = l + 1
  /\ LET e == Trace[l] IN
     CASE e.op = "reset" -> Reset(e) /\ UNCHANGED <<last, tick>>
       [] e.op = "keys" -> IF KeysOK(e) THEN UNCHANGED <<state, last, tick>> ELSE Say(e, Keys)
       [] e.op = "dump" -> IF DumpOK(e) THEN UNCHANGED <<state, last, tick>>
                           ELSE Say(e, <<NodeDocs, chunks>>)
       [] e.op = "listing" -> IF ListOK(e) THEN UNCHANGED <<state, last, tick>>
                              ELSE Say(e, IF e.what = "list_dir" THEN <<DirKeys(e), DirPrefixes(e)>>
                                          ELSE BelowPrefix(e))
       [] e.op = "uri" -> IF UriOK(e) THEN UNCHANGED <<state, last, tick>>
                          ELSE Say(e, e.base \o ChunkKey(e.path, e.pos, e.sep))
       \* a node whose document other software has placed
       [] e.op = "foreign" ->
            /\ nodes' = Put(nodes, e.path, [kind |-> e.kind, meta |-> e.meta, attrs |-> Pairs(e.attrs)])
            /\ ghosts' = ghosts \cup Ancestors(e.path) /\ UNCHANGED <<chunks, bufs, last, tick>>
       \* another handle has been opened on the same hierarchy
       [] e.op = "opened" -> IF e.ok THEN UNCHANGED <<state, last, tick>> ELSE Say(e, "open")
       [] OTHER ->
          LET op == AsOp(e)
              good == {o \in Outcomes(op) : Shows(e, o)}
          IN IF good = {} THEN Say(e, {o.res : o \in Outcomes(op)})
             ELSE LET o == CHOOSE o \in good : TRUE IN
                  /\ nodes' = o.nodes /\ chunks' = o.chunks /\ bufs' = o.bufs
                  /\ ghosts' = o.ghosts
                  /\ last' = [op |-> op, res |-> o.res] /\ tick' = ~tick

TraceSpec == TraceInit /\ [][TraceNext]_<<state, last, tick, l>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
