----------------------------- MODULE Concurrent -----------------------------
(***************************************************************************)
(* Participants (threads or processes) performing the calls of Hierarchy    *)
(* at the same time.  A call is invoked, takes effect, and returns:         *)
(*  - calls on one value or node take effect at one moment, and are those   *)
(*    of Hierarchy at that moment (Effect);                                 *)
(*  - calls on several values (removals, regions) take effect value by      *)
(*    value (Part, Finish);                                                 *)
(*  - other software may hold advisory locks on values (LockOp, UnlockOp):  *)
(*    nothing reads what is locked exclusively, nor changes what is locked. *)
(* The actions marked as deviations are what the library is known to do     *)
(* instead (see known_findings.txt); they are enabled by Deviate only.      *)
(***************************************************************************)
EXTENDS Hierarchy

CONSTANT Deviate

VARIABLES
  pend,     \* participant -> what it is doing
  locks,    \* id -> [key, ex]: locks held by others
  taken,    \* id -> what was seen of a value since it was locked
  entry,    \* whether there is an entry point
  dup,      \* path -> a group's record where both documents came to be (deviation)
  used      \* the deviations taken

cvars == <<nodes, chunks, bufs, ghosts, last, tick, pend, locks, taken, dup, used, entry>>

CInit == /\ Init /\ pend = Empty /\ locks = Empty /\ taken = Empty /\ dup = Empty /\ used = {}
         /\ entry = FALSE

-----------------------------------------------------------------------------
(* Which values a call reads and changes *)

DocKeys(p)  == {MetaKey(p, "array"), MetaKey(p, "group")}
AllUnder(p) == {MetaKey(q, nodes[q].kind) : q \in {q \in DOMAIN nodes : IsPrefixOf(p, q)}}
               \cup {MetaKey(q, "group") : q \in {q \in DOMAIN dup : IsPrefixOf(p, q)}}
               \cup {ChunkKey(c[1], c[2], chunks[c].sep) : c \in {c \in DOMAIN chunks : IsPrefixOf(p, c[1])}}

ReadsOf(op) ==
  CASE op.op \in {"read_chunk", "read_chunk_into"} -> {ChunkKey(op.path, op.pos, op.sep)}
    [] op.op \in {"list_attributes", "get_meta", "set_attributes"} -> DocKeys(op.path)
    [] op.op = "open" -> {EntryKey}
    [] op.op = "open_or_create" -> IF entry THEN {EntryKey} ELSE {}
    [] OTHER -> {}
ChangesOf(op) ==
  CASE op.op \in {"write_chunk", "delete_chunk"} -> {ChunkKey(op.path, op.pos, op.sep)}
    [] op.op = "set_attributes" -> DocKeys(op.path)
    [] op.op = "create_group" -> IF Explicit(op.path) THEN {} ELSE DocKeys(op.path)
    [] op.op = "create_array" -> IF Explicit(op.path) THEN {} ELSE DocKeys(op.path)
    [] OTHER -> {}

Readable(k)   == \A i \in DOMAIN locks : locks[i].key = k => ~locks[i].ex
Changeable(k) == \A i \in DOMAIN locks : locks[i].key # k
(* A call that changes nothing, as the setting of equal attributes, need not wait. *)
Free(op, o) ==
  /\ \A k \in ReadsOf(op) : Readable(k)
  /\ (o.nodes # nodes \/ o.chunks # chunks \/ op.op = "write_chunk") => \A k \in ChangesOf(op) : Changeable(k)

-----------------------------------------------------------------------------
(* Calls *)

Several == {"remove", "write_region", "read_region", "list_nodes"}
Openings == {"open", "open_or_create"}
Foreign == {"lock", "unlock", "peek", "probe", "await"}

(* the value the call may bring into being, if it is not there (among ns, cs) *)
LacksOf(op, ns, cs) ==
  CASE op.op = "write_chunk" -> <<op.path, op.pos>> \notin DOMAIN cs
    [] op.op = "write_region" -> \E x \in Touched(op.g, op.off, op.shape) : <<op.path, x>> \notin DOMAIN cs
    [] op.op \in {"create_group", "create_array", "set_attributes"} -> op.path \notin DOMAIN ns
    [] OTHER -> FALSE
Lacks(op) == LacksOf(op, nodes, chunks)
Names(p, S) == {q[Len(p) + 1] : q \in {q \in S : Below(p, q)}}

Lists(op) == op.op = "list_nodes"

Invoke(t, op) ==
  /\ t \notin DOMAIN pend
  /\ pend' = Put(pend, t, [op |-> op, ph |-> "called", res |-> Ok(""), snap |-> 0,
                           todo |-> CASE op.op \in {"write_region", "read_region"} /\ op.good -> Touched(op.g, op.off, op.shape)
                                      [] OTHER -> {},
                           got |-> Empty, new |-> Lacks(op),
                           lo |-> IF Lists(op) THEN Children(op.path) ELSE {},
                           hi |-> IF Lists(op) THEN Children(op.path) \cup GhostChildren(op.path) ELSE {}])
  /\ UNCHANGED <<nodes, chunks, bufs, ghosts, last, tick, locks, taken, dup, used, entry>>

Return(t) ==
  /\ pend[t].ph = "done"
  /\ pend' = Drop(pend, {t})
  /\ UNCHANGED <<nodes, chunks, bufs, ghosts, last, tick, locks, taken, dup, used, entry>>

(* a value may be absent at any moment of a call that will make it, and      *)
(* children may come and go during a listing                                *)
Marked(p, ns, cs, gs) == [t \in DOMAIN p |->
  [p[t] EXCEPT !.new = @ \/ LacksOf(p[t].op, ns, cs),
               !.lo = IF Lists(p[t].op) THEN @ \cap Names(p[t].op.path, DOMAIN ns) ELSE @,
               !.hi = IF Lists(p[t].op) THEN @ \cup Names(p[t].op.path, DOMAIN ns \cup gs) ELSE @]]

Done(t, res) == pend' = Marked([pend EXCEPT ![t].ph = "done", ![t].res = res], nodes', chunks', ghosts')

Rest == UNCHANGED <<last, tick, locks, taken, entry>>

Effect(t) ==
  LET op == pend[t].op IN
  /\ pend[t].ph = "called" /\ op.op \notin Several \cup Foreign \cup Openings
  \* under deviations these are done in steps
  /\ Deviate => op.op \notin {"set_attributes", "create_group", "create_array"}
  /\ \E o \in Outcomes(op) :
       /\ Free(op, o)
       /\ nodes' = o.nodes /\ chunks' = o.chunks /\ bufs' = o.bufs /\ ghosts' = o.ghosts
       /\ Done(t, o.res)
  /\ UNCHANGED <<dup, used>> /\ Rest

Writes(b, a) ==
  \/ b.op = "write_chunk" /\ a.path = b.path /\ a.pos = b.pos
  \/ b.op = "write_region" /\ a.path = b.path /\ a.pos \in Touched(b.g, b.off, b.shape)

(* Deleting reports whether the value is absent at the end, which need not   *)
(* be so any more: another call may have written it, or be about to.         *)
Observe(t) ==
  /\ pend[t].ph = "done" /\ pend[t].op.op = "delete_chunk" /\ pend[t].res = Ok(TRUE)
  /\ \/ <<pend[t].op.path, pend[t].op.pos>> \in DOMAIN chunks
     \/ \E u \in DOMAIN pend : Writes(pend[u].op, pend[t].op)
  /\ pend' = [pend EXCEPT ![t].res = Ok(FALSE)]
  /\ UNCHANGED <<nodes, chunks, bufs, ghosts, dup, used>> /\ Rest

(* one value of a removal or region *)
Part(t) ==
  LET op == pend[t].op IN
  /\ pend[t].ph = "called"
  /\ \/ /\ op.op = "remove"
        /\ \/ \E q \in DOMAIN nodes :
                /\ IsPrefixOf(op.path, q) /\ Changeable(MetaKey(q, nodes[q].kind))
                /\ nodes' = IF q \in DOMAIN dup THEN Put(nodes, q, dup[q]) ELSE Drop(nodes, {q})
                /\ dup' = Drop(dup, {q}) /\ UNCHANGED chunks
           \/ \E c \in DOMAIN chunks :
                /\ IsPrefixOf(op.path, c[1]) /\ Changeable(ChunkKey(c[1], c[2], chunks[c].sep))
                /\ chunks' = Drop(chunks, {c}) /\ UNCHANGED <<nodes, dup>>
        /\ pend' = Marked(pend, nodes', chunks', ghosts)
        /\ UNCHANGED <<bufs, ghosts, used>> /\ Rest
     \/ /\ op.op = "write_region" /\ op.good
        /\ \E x \in pend[t].todo :
             /\ Changeable(ChunkKey(op.path, x, op.g.sep))
             /\ chunks' = Put(chunks, <<op.path, x>>,
                              [data |-> Written(op.path, op.g, op.off, op.shape, op.data, x), sep |-> op.g.sep])
             /\ pend' = Marked([pend EXCEPT ![t].todo = @ \ {x}], nodes, chunks', ghosts)
        /\ UNCHANGED <<nodes, bufs, ghosts, dup, used>> /\ Rest
     \/ /\ op.op = "read_region" /\ op.good
        /\ \E x \in pend[t].todo :
             /\ Readable(ChunkKey(op.path, x, op.g.sep))
             /\ pend' = [pend EXCEPT ![t].todo = @ \ {x},
                           ![t].got = IF <<op.path, x>> \in DOMAIN chunks
                                      THEN Put(@, x, chunks[<<op.path, x>>].data) ELSE @]
        /\ UNCHANGED <<nodes, chunks, bufs, ghosts, dup, used>> /\ Rest

RegionSeen(op, got) ==
  [k \in 1..Size(op.shape) |->
     LET c == Plus(op.off, Unlinear(k - 1, op.shape, "C"))
         x == ChunkOf(op.g, c)
     IN IF ~InArray(op.g, c) THEN Wild
        ELSE IF x \in DOMAIN got THEN got[x][Linear(LocalOf(op.g, c), op.g.cshape, op.g.order)]
        ELSE IF op.init # "" THEN op.init ELSE op.g.fill]

Finish(t) ==
  LET op == pend[t].op IN
  /\ pend[t].ph = "called" /\ op.op \in Several
  /\ CASE op.op = "remove" -> AllUnder(op.path) = {} /\ ghosts' = {q \in ghosts : ~IsPrefixOf(op.path, q)}
       [] op.op = "write_region" -> pend[t].todo = {} /\ UNCHANGED ghosts
       [] op.op = "read_region" -> pend[t].todo = {} /\ UNCHANGED ghosts
       [] op.op = "list_nodes" -> UNCHANGED ghosts
  /\ pend' = [pend EXCEPT ![t].ph = "done",
                          ![t].res = IF op.op = "read_region" THEN Ok(RegionSeen(op, pend[t].got)) ELSE Ok("")]
  /\ UNCHANGED <<nodes, chunks, bufs, dup, used>> /\ Rest

(* opening: what exists opens; creation is done once *)
OpenOp(t) ==
  LET op == pend[t].op IN
  /\ pend[t].ph = "called" /\ op.op \in Openings
  /\ entry => Readable(EntryKey)
  /\ entry' = (entry \/ op.op = "open_or_create")
  /\ pend' = [pend EXCEPT ![t].ph = "done", ![t].res = IF entry' THEN Ok("") ELSE Err("any")]
  /\ UNCHANGED <<nodes, chunks, bufs, ghosts, last, tick, locks, taken, dup, used>>

-----------------------------------------------------------------------------
(* Other software *)
Present == Keys \cup (IF entry THEN {EntryKey} ELSE {})

(* what calls under way are about to bring into being may be there already,   *)
(* without content, and then be locked by others before it has any            *)
Arriving == UNION {LET op == pend[u].op IN
                   CASE op.op = "write_region" -> {ChunkKey(op.path, x, op.g.sep) : x \in pend[u].todo}
                     [] op.op \in {"write_chunk", "create_group", "create_array"} -> ChangesOf(op)
                     [] op.op = "open_or_create" -> {EntryKey}
                     [] OTHER -> {} : u \in {u \in DOMAIN pend : pend[u].ph # "done"}}

LockOp(t) ==
  LET op == pend[t].op IN
  /\ pend[t].ph = "called" /\ op.op = "lock"
  /\ \/ /\ op.key \in Present \cup Arriving
        /\ \A i \in DOMAIN locks : locks[i].key = op.key => ~locks[i].ex /\ ~op.ex
        /\ locks' = Put(locks, op.id, [key |-> op.key, ex |-> op.ex])
        /\ taken' = Drop(taken, {op.id})
        /\ pend' = [pend EXCEPT ![t].ph = "done", ![t].res = Ok("")]
     \/ /\ op.key \notin Present
        /\ pend' = [pend EXCEPT ![t].ph = "done", ![t].res = Err("NotFound")]
        /\ UNCHANGED <<locks, taken>>
  /\ UNCHANGED <<nodes, chunks, bufs, ghosts, last, tick, dup, used, entry>>

UnlockOp(t) ==
  /\ pend[t].ph = "called" /\ pend[t].op.op = "unlock"
  /\ locks' = Drop(locks, {pend[t].op.id})
  /\ pend' = [pend EXCEPT ![t].ph = "done"]
  /\ UNCHANGED <<nodes, chunks, bufs, ghosts, last, tick, taken, dup, used, entry>>

(* who holds a lock looks at the value: it is there and stays the same *)
PeekOp(t) ==
  LET op == pend[t].op IN
  /\ pend[t].ph = "called" /\ op.op = "peek"
  /\ IF op.id \in DOMAIN locks
     THEN /\ op.some
          /\ op.id \in DOMAIN taken => taken[op.id] = op.token
          /\ taken' = Put(taken, op.id, op.token)
     ELSE UNCHANGED taken
  /\ pend' = [pend EXCEPT ![t].ph = "done"]
  /\ UNCHANGED <<nodes, chunks, bufs, ghosts, last, tick, locks, dup, used, entry>>

(* waiting for the calls of another, which do not need what is held meanwhile *)
AwaitOp(t) ==
  /\ pend[t].ph = "called" /\ pend[t].op.op = "await" /\ pend[t].op.who \notin DOMAIN pend
  /\ pend' = [pend EXCEPT ![t].ph = "done"]
  /\ UNCHANGED <<nodes, chunks, bufs, ghosts, last, tick, locks, taken, dup, used, entry>>

(* which values are locked, when no call is under way *)
ProbeOp(t) ==
  /\ pend[t].ph = "called" /\ pend[t].op.op = "probe" /\ DOMAIN pend = {t}
  /\ pend' = [pend EXCEPT ![t].ph = "done", ![t].res = Ok({locks[i].key : i \in DOMAIN locks})]
  /\ UNCHANGED <<nodes, chunks, bufs, ghosts, last, tick, locks, taken, dup, used, entry>>

-----------------------------------------------------------------------------
(* Deviations *)

(* A value is visible, and empty, from the creation of its file until its    *)
(* first content is written: a read meanwhile fails.                         *)
SameValue(a, b) ==
  \/ a.op \in {"read_chunk", "read_chunk_into"} /\ Writes(b, a)
  \/ a.op \in {"read_region", "write_region"} /\ a.path = b.path
       /\ \/ b.op = "write_chunk" /\ b.pos \in Touched(a.g, a.off, a.shape)
          \/ b.op = "write_region" /\ Touched(b.g, b.off, b.shape) \cap Touched(a.g, a.off, a.shape) # {}
  \/ a.op \in {"list_attributes", "get_meta", "set_attributes", "array_exists"}
       /\ b.op \in {"create_group", "create_array", "set_attributes"} /\ a.path = b.path
Birth(t) ==
  /\ Deviate /\ pend[t].ph = "called"
  /\ \E u \in DOMAIN pend \ {t} : pend[u].new /\ SameValue(pend[t].op, pend[u].op)
  /\ pend' = [pend EXCEPT ![t].ph = "done",
                          ![t].res = IF @.t = "ok" /\ pend[t].op.op = "array_exists" THEN Ok(FALSE) ELSE Err("any")]
  /\ used' = used \cup {"read-during-creation"}
  /\ UNCHANGED <<nodes, chunks, bufs, ghosts, dup>> /\ Rest

(* Attributes are set by reading the document, and writing it later. *)
SetRead(t) ==
  LET op == pend[t].op IN
  /\ Deviate /\ pend[t].ph = "called" /\ op.op = "set_attributes"
  /\ \A k \in DocKeys(op.path) : Readable(k)
  /\ IF Explicit(op.path)
     THEN pend' = [pend EXCEPT ![t].ph = "read", ![t].snap = nodes[op.path]]
     ELSE pend' = [pend EXCEPT ![t].ph = "done", ![t].res = Err("NotFound")]
  /\ UNCHANGED <<nodes, chunks, bufs, ghosts, dup, used>> /\ Rest
SetWrite(t) ==
  LET op == pend[t].op
      old == pend[t].snap
      new == [old EXCEPT !.attrs = Merge(@, op.attrs)]
  IN
  /\ Deviate /\ pend[t].ph = "read" /\ op.op = "set_attributes"
  /\ IF new = old THEN UNCHANGED <<nodes, dup, used>>
     ELSE /\ \A k \in DocKeys(op.path) : Changeable(k)
          /\ IF old.kind = "group" /\ IsArray(op.path)
             THEN dup' = Put(dup, op.path, new) /\ UNCHANGED nodes
             ELSE nodes' = Put(nodes, op.path, new) /\ UNCHANGED dup
          /\ used' = IF Explicit(op.path) /\ nodes[op.path] = old THEN used ELSE used \cup {"lost-update"}
  /\ pend' = Marked([pend EXCEPT ![t].ph = "done", ![t].res = Ok("")], nodes', chunks, ghosts)
  /\ UNCHANGED <<chunks, bufs, ghosts>> /\ Rest

(* Nodes are created after having looked whether there is one. *)
CreateCheck(t) ==
  LET op == pend[t].op IN
  /\ Deviate /\ pend[t].ph = "called" /\ op.op \in {"create_group", "create_array"}
  /\ IF Explicit(op.path)
     THEN \E o \in Outcomes(op) : pend' = [pend EXCEPT ![t].ph = "done", ![t].res = o.res]
     ELSE pend' = [pend EXCEPT ![t].ph = "checked"]
  /\ UNCHANGED <<nodes, chunks, bufs, ghosts, dup, used>> /\ Rest
CreateDo(t) ==
  LET op == pend[t].op
      p == op.path
      rec == IF op.op = "create_group" THEN [kind |-> "group", meta |-> "", attrs |-> {}]
             ELSE [kind |-> "array", meta |-> op.meta, attrs |-> op.attrs]
  IN
  /\ Deviate /\ pend[t].ph = "checked"
  /\ \A k \in DocKeys(p) : Changeable(k)
  /\ IF rec.kind = "group" /\ IsArray(p) THEN dup' = Put(dup, p, rec) /\ UNCHANGED nodes
     ELSE /\ nodes' = Put(nodes, p, rec)
          /\ dup' = IF rec.kind = "array" /\ IsGroup(p) THEN Put(dup, p, nodes[p]) ELSE dup
  /\ used' = IF Explicit(p) THEN used \cup {"double-create"} ELSE used
  /\ ghosts' = ghosts \cup Ancestors(p)
  /\ pend' = Marked([pend EXCEPT ![t].ph = "done", ![t].res = Ok("")], nodes', chunks, ghosts')
  /\ UNCHANGED <<chunks, bufs>> /\ Rest

Silent(t) == \/ Effect(t) \/ Observe(t) \/ Part(t) \/ Finish(t)
             \/ OpenOp(t) \/ LockOp(t) \/ UnlockOp(t) \/ PeekOp(t) \/ AwaitOp(t) \/ ProbeOp(t)
             \/ Birth(t) \/ SetRead(t) \/ SetWrite(t) \/ CreateCheck(t) \/ CreateDo(t)
=============================================================================
