----------------------------- MODULE MCConcurrent -----------------------------
(* Small exhaustive configurations of Concurrent: a few participants, each     *)
(* performing any calls of its profile in any order, in every interleaving.    *)
(* What C15, C16, C19 and C24 say is stated about the histories (through what  *)
(* is recorded of them in `seen`, `fin`, `mine`), and not in terms of the       *)
(* transitions, so that these decide whether Concurrent is the right oracle.   *)
EXTENDS Concurrent, IOUtils

CONSTANTS People, Calls, Profile
VARIABLES
  left,   \* calls a participant may still make
  seen,   \* participant -> values and nodes that were there at a moment of its call
  fin,    \* the calls that returned, as a set of [t, n, op, res]
  mine    \* participant -> what it last left of its own chunk or node

MCSuffix == ".json"
DeviateEnv == ~("STRICT" \in DOMAIN IOEnv)

A == <<"a">>  B == <<"b">>  AB == <<"a", "b">>
G == [shape |-> <<10>>, cshape |-> <<2>>, order |-> "C", fill |-> "07", sep |-> "/"]
D(x) == <<x, x>>
Wr(p, k, d) == [op |-> "write_chunk", path |-> p, pos |-> <<k>>, data |-> D(d), sep |-> "/", good |-> TRUE]
Rd(p, k) == [op |-> "read_chunk", path |-> p, pos |-> <<k>>, sep |-> "/", good |-> TRUE]
Dl(p, k) == [op |-> "delete_chunk", path |-> p, pos |-> <<k>>, sep |-> "/"]
WrR(off, n, d) == [op |-> "write_region", path |-> A, g |-> G, off |-> <<off>>, shape |-> <<n>>,
                   data |-> [i \in 1..n |-> d], good |-> TRUE, typed |-> TRUE, fillok |-> TRUE]
RdR(off, n) == [op |-> "read_region", path |-> A, g |-> G, off |-> <<off>>, shape |-> <<n>>,
                init |-> "", good |-> TRUE, typed |-> TRUE, fillok |-> TRUE]
Node(o, p) == [op |-> o, path |-> p]
Arr(p) == [op |-> "create_array", path |-> p, meta |-> "M", attrs |-> {}]
Set(p, k, v) == [op |-> "set_attributes", path |-> p, attrs |-> {<<k, v>>}]
Lock(key, ex, t) == [op |-> "lock", key |-> key, ex |-> ex, id |-> t]

ArrRec == [kind |-> "array", meta |-> "M", attrs |-> {}]
GrpRec == [kind |-> "group", meta |-> "", attrs |-> {}]
First(t) == t = CHOOSE x \in People : \A y \in People : x =< y

(* what a participant may call *)
OpsOf(t) ==
  CASE Profile = "values" -> {Wr(A, 0, ToString(t)), Rd(A, 0), Dl(A, 0)}
    [] Profile = "node" -> {Node("create_group", A), Arr(A), Set(A, "k", ToString(t)), Set(A, ToString(t), "x"),
                            Node("list_attributes", A), Node("array_exists", A)}
    [] Profile = "locks" ->
         IF First(t) THEN {Lock(k, ex, t) : k \in {ChunkKey(A, <<0>>, "/"), MetaKey(A, "array")}, ex \in BOOLEAN}
                          \cup {[op |-> "unlock", id |-> t], Rd(A, 1)}
         ELSE {Wr(A, 0, ToString(t)), Rd(A, 0), Dl(A, 0), Set(A, "k", ToString(t)), Node("list_attributes", A),
               Node("remove", A)}
    [] Profile = "several" ->
         IF First(t) THEN {Node("remove", A), RdR(1, 2), Node("list_nodes", <<>>)}
         ELSE {WrR(0, 4, ToString(t)), WrR(1, 2, ToString(t)), Wr(A, 1, ToString(t)), Node("remove", A),
               Node("create_group", B), Dl(A, 0)}
    [] Profile = "disjoint" -> {Wr(A, t, ToString(t)), Dl(A, t), Rd(A, t),
                                WrR(2 * t, 2, ToString(t))}
    [] Profile = "opening" -> {[op |-> "open", path |-> <<>>], [op |-> "open_or_create", path |-> <<>>],
                               Node("create_group", A), Node("array_exists", A)}

Starts ==
  CASE Profile \in {"node"} -> {Empty, Put(Empty, A, ArrRec), Put(Empty, A, GrpRec)}
    [] Profile = "opening" -> {Empty}
    [] OTHER -> {Put(Empty, A, ArrRec)}
StartChunks ==
  CASE Profile \in {"values", "locks", "several"} ->
         {Empty, Put(Empty, <<A, <<0>>>>, [data |-> D("0"), sep |-> "/"])}
    [] OTHER -> {Empty}

-----------------------------------------------------------------------------
NoChunk == [some |-> FALSE, pos |-> <<>>, data |-> <<>>]
ChunkNow(cs, p, x) == IF <<p, x>> \in DOMAIN cs
                      THEN [some |-> TRUE, pos |-> x, data |-> cs[<<p, x>>].data] ELSE NoChunk
NodeNow(ns, p) == IF p \in DOMAIN ns THEN ns[p] ELSE [kind |-> "none", meta |-> "", attrs |-> {}]
WritingTo(op) == op.op = "delete_chunk" /\ \E u \in DOMAIN pend : Writes(pend[u].op, op)
Now(ns, cs, en, op) == [c0 |-> ChunkNow(cs, A, <<0>>), c1 |-> ChunkNow(cs, A, <<1>>),
                        cp |-> IF op.op \in {"read_chunk", "delete_chunk", "write_chunk"} /\ op.pos[1] > 1
                               THEN ChunkNow(cs, A, op.pos) ELSE NoChunk,
                        w |-> WritingTo(op), a |-> NodeNow(ns, A), b |-> NodeNow(ns, B), entry |-> en]

MCInit == /\ nodes \in Starts /\ chunks \in StartChunks /\ bufs = Empty /\ ghosts = {<<>>}
          /\ last = [op |-> [op |-> "init"], res |-> Ok("")] /\ tick = FALSE
          /\ pend = Empty /\ locks = Empty /\ taken = Empty /\ dup = Empty /\ used = {} /\ entry = FALSE
          /\ left = [t \in People |-> Calls[t]] /\ seen = Empty /\ fin = {}
          /\ mine = [t \in People |-> NoChunk]

NoRemoval == Profile = "node"
Holds(t) == \E i \in DOMAIN locks : i = t
(* locks are taken, then given back *)
May(t, op) == CASE op.op = "lock" -> ~Holds(t) /\ left[t] > 1
                [] op.op = "unlock" -> Holds(t)
                [] OTHER -> ~Holds(t)

Looks(op) == op.op \in {"read_chunk", "delete_chunk", "read_region", "list_attributes", "get_meta", "array_exists",
                        "list_nodes", "remove", "open"}
Begin(t) == /\ left[t] > 0
            /\ \E op \in OpsOf(t) : /\ May(t, op) /\ Invoke(t, op)
                                    /\ seen' = Put(seen, t, IF Looks(op) THEN {Now(nodes, chunks, entry, op)} ELSE {})
            /\ left' = [left EXCEPT ![t] = @ - 1]
            /\ UNCHANGED <<fin, mine>>
Work(t) == /\ Silent(t)
           /\ seen' = [u \in DOMAIN seen |->
                IF Looks(pend[u].op) /\ (pend[u].ph # "done" \/ pend[u].op.op \in {"list_nodes", "delete_chunk"})
                THEN seen[u] \cup {Now(nodes', chunks', entry', pend[u].op)} ELSE seen[u]]
           /\ UNCHANGED <<left, fin, mine>>
End(t) == /\ Return(t)
          /\ fin' = IF NoRemoval THEN fin \cup {[t |-> t, n |-> left[t], op |-> pend[t].op, res |-> pend[t].res]} ELSE fin
          /\ mine' = CASE Profile # "disjoint" -> mine
                       [] pend[t].op.op \in {"write_chunk"} /\ pend[t].res.t = "ok" ->
                            [mine EXCEPT ![t] = [some |-> TRUE, pos |-> pend[t].op.pos, data |-> pend[t].op.data]]
                       [] pend[t].op.op = "write_region" /\ pend[t].res.t = "ok" ->
                            [mine EXCEPT ![t] = [some |-> TRUE, pos |-> <<t>>, data |-> pend[t].op.data]]
                       [] pend[t].op.op = "delete_chunk" /\ pend[t].res.t = "ok" -> [mine EXCEPT ![t] = NoChunk]
                       [] OTHER -> mine
          /\ seen' = Drop(seen, {t}) /\ UNCHANGED left
Over == /\ \A t \in People : left[t] = 0 /\ t \notin DOMAIN pend
        /\ UNCHANGED <<cvars, left, seen, fin, mine>>

MCNext == Over \/ \E t \in People : \/ t \notin DOMAIN pend /\ Begin(t)
                                    \/ t \in DOMAIN pend /\ (Work(t) \/ End(t))
MCSpec == MCInit /\ [][MCNext]_<<cvars, left, seen, fin, mine>>
-----------------------------------------------------------------------------
Finished(t) == t \in DOMAIN pend /\ pend[t].ph = "done"
Quiet == DOMAIN pend = {}
Ended(t) == pend[t].op.op

(* C15: a call yields a value that was there, whole, at a moment of the call;  *)
(* it fails only where the listed deviation was taken.                        *)
ValueSeen == \A t \in DOMAIN pend : Finished(t) /\ Ended(t) = "read_chunk" =>
  LET op == pend[t].op  res == pend[t].res
      at(w) == CASE op.pos = <<0>> -> w.c0 [] op.pos = <<1>> -> w.c1 [] OTHER -> w.cp
  IN IF res.t = "ok"
     THEN \E w \in seen[t] : at(w).some = res.v.some /\ (res.v.some => at(w).data = res.v.data)
     ELSE "read-during-creation" \in used
DocumentSeen == \A t \in DOMAIN pend : Finished(t) /\ pend[t].op.op \in {"list_attributes", "get_meta", "array_exists"} =>
  LET op == pend[t].op  res == pend[t].res IN
  IF res.t = "ok"
  THEN \/ \E w \in seen[t] : CASE op.op = "list_attributes" -> w.a.kind # "none" /\ w.a.attrs = res.v
                               [] op.op = "get_meta" -> w.a.kind = "array" /\ w.a.attrs = res.v.attrs
                               [] op.op = "array_exists" -> (w.a.kind = "array") = res.v
       \/ op.op = "array_exists" /\ res.v = FALSE /\ "read-during-creation" \in used
  ELSE \/ "read-during-creation" \in used
       \/ \E w \in seen[t] : w.a.kind # "array"
RegionSeenWhole == \A t \in DOMAIN pend : Finished(t) /\ Ended(t) = "read_region" /\ pend[t].res.t = "ok" =>
  \A k \in 1..Len(pend[t].res.v) :
     LET c == pend[t].op.off[1] + k - 1
         at(w) == IF c < 2 THEN w.c0 ELSE w.c1
     IN \E w \in seen[t] : pend[t].res.v[k] = IF at(w).some THEN at(w).data[(c % 2) + 1] ELSE G.fill
DeleteSays == \A t \in DOMAIN pend : Finished(t) /\ Ended(t) = "delete_chunk" /\ pend[t].res = Ok(TRUE) =>
  \E w \in seen[t] : ~(IF pend[t].op.pos = <<0>> THEN w.c0 ELSE IF pend[t].op.pos = <<1>> THEN w.c1 ELSE w.cp).some

DeleteFails == \A t \in DOMAIN pend : Finished(t) /\ Ended(t) = "delete_chunk" /\ pend[t].res = Ok(FALSE) =>
  \E w \in seen[t] \cup {Now(nodes, chunks, entry, pend[t].op)} :
     \/ w.w
     \/ (IF pend[t].op.pos = <<0>> THEN w.c0 ELSE IF pend[t].op.pos = <<1>> THEN w.c1 ELSE w.cp).some

(* every content of a chunk is one that somebody wrote *)
Content == \A c \in DOMAIN chunks : Profile \in {"values", "locks", "disjoint"} =>
  \E x \in {"0"} \cup {ToString(t) : t \in People} : chunks[c].data = D(x)

(* C24: one creation; every completed setting of attributes has left its mark *)
Did(o) == {r \in fin : r.op.op = o /\ r.res.t = "ok"}
Doing(o) == {t \in DOMAIN pend : pend[t].op.op = o}
OneCreation == NoRemoval /\ used = {} => Cardinality(Did("create_array")) =< 1
OneKind == NoRemoval /\ used = {} =>
  ~(Did("create_array") # {} /\ \E r \in Did("create_group") : TRUE) /\ dup = Empty
NoLostUpdate == NoRemoval /\ used = {} =>
  \A r \in Did("set_attributes") : \A x \in r.op.attrs :
     /\ IsArray(A) \/ IsGroup(A)
     /\ \E y \in nodes[A].attrs : y[1] = x[1] /\
          (y = x \/ \E q \in Did("set_attributes") : y \in q.op.attrs
                 \/ \E u \in Doing("set_attributes") : y \in pend[u].op.attrs)
OnlySet == NoRemoval /\ A \in DOMAIN nodes =>
  \A y \in nodes[A].attrs : (\E q \in Did("set_attributes") : y \in q.op.attrs)
                         \/ (\E u \in Doing("set_attributes") : y \in pend[u].op.attrs)

(* C16: what is locked by others stays as it is, and what they hold            *)
(* exclusively is not read                                                    *)
ValueOf(k, ns, cs, en) == {<<"n", ns[p]>> : p \in {p \in DOMAIN ns : MetaKey(p, ns[p].kind) = k}}
                          \cup {<<"c", cs[c].data>> : c \in {c \in DOMAIN cs : ChunkKey(c[1], c[2], cs[c].sep) = k}}
LockedStays == [][\A i \in DOMAIN locks :
   LET k == locks[i].key IN ValueOf(k, nodes', chunks', entry') = ValueOf(k, nodes, chunks, entry)
  ]_<<cvars, left, seen, fin, mine>>
LockedUnread == [][\A t \in DOMAIN pend \cap DOMAIN pend' :
   pend[t].ph = "called" /\ pend'[t].ph = "done" /\ pend'[t].res.t = "ok" =>
     CASE pend[t].op.op = "read_chunk" -> \A i \in DOMAIN locks :
            locks[i].ex => locks[i].key # ChunkKey(A, pend[t].op.pos, "/")
       [] pend[t].op.op = "list_attributes" -> \A i \in DOMAIN locks : locks[i].ex => locks[i].key # MetaKey(A, "array")
       [] OTHER -> TRUE]_<<cvars, left, seen, fin, mine>>
(* Every call ends once the locks are given back: every step brings its       *)
(* participant forward, so it is enough that nobody is stuck (no deadlock).   *)

(* C19: on values of their own, everybody finds what they left *)
OwnStays == Profile = "disjoint" => \A t \in People : t \notin DOMAIN pend =>
   ChunkNow(chunks, A, <<t>>).some = mine[t].some /\ ChunkNow(chunks, A, <<t>>).data = mine[t].data
OwnRead == Profile = "disjoint" => \A t \in DOMAIN pend :
   pend[t].ph = "done" /\ pend[t].op.op = "read_chunk" =>
     pend[t].res.t = "ok" /\ pend[t].res.v.some = mine[t].some /\ pend[t].res.v.data = mine[t].data
OwnSays == Profile = "disjoint" => \A t \in DOMAIN pend : pend[t].ph = "done" =>
   pend[t].res.t = "ok" /\ (pend[t].op.op = "delete_chunk" => pend[t].res = Ok(TRUE))

(* removals, listings *)
Listing == \A t \in DOMAIN pend : pend[t].op.op = "list_nodes" =>
   /\ pend[t].lo \subseteq pend[t].hi /\ pend[t].hi \subseteq {"a", "b"}
   /\ (\A w \in seen[t] : w.a.kind # "none") => "a" \in pend[t].lo
   /\ (\A w \in seen[t] : w.b.kind = "none") => "b" \notin pend[t].hi
Removed == Profile = "several" => \A t \in DOMAIN pend :
   pend[t].op.op = "remove" /\ pend[t].ph = "done" =>
     \E w \in seen[t] : w.a.kind = "none" /\ ~w.c0.some /\ ~w.c1.some

(* C24: the hierarchy comes to be once, and opens from then on *)
Opened == Profile = "opening" => \A t \in DOMAIN pend : pend[t].ph = "done" =>
   CASE pend[t].op.op = "open_or_create" -> pend[t].res.t = "ok"
     [] pend[t].op.op = "open" -> (pend[t].res.t = "ok") = (\E w \in seen[t] : w.entry)
                                  \/ (pend[t].res.t = "err" /\ \E w \in seen[t] : ~w.entry)
     [] OTHER -> TRUE

EntryStays == [][entry => entry']_<<cvars, left, seen, fin, mine>>

One == [t \in People |-> 1]
TwoCalls == [t \in People |-> 2]
Uneven == [t \in People |-> IF First(t) THEN 2 ELSE 1]
FourFirst == [t \in People |-> IF First(t) THEN 4 ELSE 1]
=============================================================================
