------------------------------- MODULE Disturb -------------------------------
(* What a hierarchy may be after a call that was cut short: because its       *)
(* process died, or because the storage below it failed.  Refines the         *)
(* single steps of Hierarchy; values can now be broken, which is to say that   *)
(* they are there, and reading them fails.                                    *)
(*                                                                         *)
(* What a broken value was before stays known to the specification: calls     *)
(* repeated after the disturbance are to have their full effect.              *)
EXTENDS Hierarchy

VARIABLES
  brokenC,   \* set of <<path, position>>: the chunks that are broken
  brokenN,   \* path -> kind: the nodes whose document of that kind is broken
  entry,     \* the entry point: "ok", "absent" or "broken"
  used       \* the deviations taken

CONSTANT Deviate    \* whether the known deviations are allowed

dstate == <<nodes, chunks, bufs, ghosts, brokenC, brokenN, entry, used>>

\* a state with its parts; what is not changed is as it is
Now == [nodes |-> nodes, chunks |-> chunks, bufs |-> bufs, ghosts |-> ghosts,
        brokenC |-> brokenC, brokenN |-> brokenN, entry |-> entry, used |-> used]

Become(s) ==
  /\ nodes' = s.nodes /\ chunks' = s.chunks /\ bufs' = s.bufs /\ ghosts' = s.ghosts
  /\ brokenC' = s.brokenC /\ brokenN' = s.brokenN /\ entry' = s.entry /\ used' = s.used

With(res, s) == [res |-> res, s |-> s]

-----------------------------------------------------------------------------
(* Calls that are not disturbed, in a hierarchy with broken values            *)

BrokenUnder(p) == {q \in DOMAIN brokenN : IsPrefixOf(p, q)}
WrittenChunks(op) ==
  CASE op.op \in {"write_chunk", "delete_chunk"} -> {<<op.path, op.pos>>}
    [] op.op = "write_region" /\ op.good -> {<<op.path, t>> : t \in Touched(op.g, op.off, op.shape)}
    [] op.op = "remove" -> {c \in brokenC \cup DOMAIN chunks : IsPrefixOf(op.path, c[1])}
    [] OTHER -> {}
ReadChunks(op) ==
  CASE op.op \in {"read_chunk", "read_chunk_into"} -> {<<op.path, op.pos>>}
    [] op.op = "read_region" /\ op.good -> {<<op.path, t>> : t \in Touched(op.g, op.off, op.shape)}
    [] OTHER -> {}
(* those of which only a part is written *)
PartlyWritten(op) ==
  IF op.op # "write_region" \/ ~op.good THEN {}
  ELSE {c \in WrittenChunks(op) : ~Covers(op.off, op.shape, Times(c[2], op.g.cshape), op.g.cshape)}
WrittenNodes(op) ==
  CASE op.op \in {"create_group", "create_array", "set_attributes"} -> {op.path}
    [] op.op = "remove" -> BrokenUnder(op.path)
    [] OTHER -> {}

(* the calls as of Hierarchy; what they write is not broken any more *)
Mended(op) ==
  {With(o.res, IF o.res.t # "ok" THEN Now
               ELSE [Now EXCEPT !.nodes = o.nodes, !.chunks = o.chunks, !.bufs = o.bufs, !.ghosts = o.ghosts,
                                !.brokenC = @ \ WrittenChunks(op), !.brokenN = Drop(@, WrittenNodes(op))])
   : o \in Outcomes(op)}

BrokenChildren(p) == {q[Len(p) + 1] : q \in {q \in DOMAIN brokenN : Below(p, q)}}
SoundChildren(p) == {q[Len(p) + 1] : q \in {q \in DOMAIN nodes \ DOMAIN brokenN : Below(p, q)}}
ListBroken(p) ==
  {With(Ok(SoundChildren(p) \cup G), Now)
     : G \in SUBSET ((BrokenChildren(p) \cup GhostChildren(p)) \ SoundChildren(p))}
  \cup (IF SoundChildren(p) # {} \/ (Explicit(p) /\ p \notin DOMAIN brokenN) \/ p = <<>> THEN {}
        ELSE {With(Err("NotFound"), Now)})

Fails == {With(Err("any"), Now)}

EntryOutcomes(op) ==
  IF entry = "ok" THEN {With(Ok(""), Now)}
  ELSE IF op.op = "open" THEN Fails
  ELSE {With(Ok(""), [Now EXCEPT !.entry = "ok"])}

(* without deviations *)
Intended(op) ==
  CASE op.op \in {"open", "open_or_create"} -> EntryOutcomes(op)
    [] op.op = "list_nodes" -> IF DOMAIN brokenN = {} THEN Mended(op) ELSE ListBroken(op.path)
    [] op.op \in {"list_attributes", "get_meta"} /\ op.path \in DOMAIN brokenN -> Fails
    [] op.op = "array_exists" /\ op.path \in DOMAIN brokenN -> Fails \cup {With(Ok(FALSE), Now)}
    [] op.op = "exists" /\ op.path \in DOMAIN brokenN -> {With(Ok(b), Now) : b \in BOOLEAN}
    [] ReadChunks(op) \cap brokenC # {} -> Fails
    [] OTHER -> Mended(op)

-----------------------------------------------------------------------------
(* Calls that are cut short: what may be left                                 *)

Cut(op) ==
  {Now} \cup {o.s : o \in Intended(op)} \cup
  CASE op.op = "write_chunk" /\ op.good ->
         LET k == <<op.path, op.pos>> IN
         {[Now EXCEPT !.brokenC = @ \cup {k}], [Now EXCEPT !.chunks = Drop(@, {k}), !.brokenC = @ \ {k}]}
    [] op.op = "delete_chunk" -> {[Now EXCEPT !.brokenC = @ \cup {<<op.path, op.pos>>}]}
    [] op.op = "set_attributes" /\ Explicit(op.path) ->
         {[Now EXCEPT !.brokenN = Put(@, op.path, nodes[op.path].kind)]}
    [] op.op = "create_group" /\ (~Explicit(op.path) \/ op.path \in DOMAIN brokenN) ->
         {[Now EXCEPT !.brokenN = Put(@, op.path, "group"), !.ghosts = @ \cup Ancestors(op.path)]}
    [] op.op = "create_array" /\ (~Explicit(op.path) \/ op.path \in DOMAIN brokenN) ->
         {[Now EXCEPT !.brokenN = Put(@, op.path, "array"), !.ghosts = @ \cup Ancestors(op.path)]}
    [] op.op = "write_region" /\ op.good /\ op.typed /\ op.fillok ->
         \* of the chunks some are written, and one at most is being written
         LET T == WrittenChunks(op)
             Full == CHOOSE o \in Outcomes(op) : TRUE
             Some(N) == [Now EXCEPT !.brokenC = @ \ N,
                           !.chunks = [k \in DOMAIN chunks \cup N |-> IF k \in N THEN Full.chunks[k] ELSE chunks[k]]]
         IN UNION {{Some(N)} \cup {[Some(N) EXCEPT !.brokenC = @ \cup {b}] : b \in T \ N}
                             \cup {[Some(N) EXCEPT !.chunks = Drop(@, {b})] : b \in T \ (N \cup PartlyWritten(op))}
                    : N \in SUBSET T}
    [] op.op = "remove" ->
         \* some of the values are gone, and one at most is going; no array is
         \* to be seen of which chunks have been removed
         LET Ns == {q \in DOMAIN nodes : IsPrefixOf(op.path, q)}
             Cs == {c \in DOMAIN chunks : IsPrefixOf(op.path, c[1])}
             Left(N, C) == [Now EXCEPT !.nodes = Drop(@, N), !.chunks = Drop(@, C),
                                       !.brokenN = Drop(@, N), !.brokenC = @ \ C]
             NoneAstray(N, C) == \A c \in C : c[1] \in DOMAIN nodes => c[1] \in N \/ c[1] \in DOMAIN brokenN
         IN {Left(nc[1], nc[2]) : nc \in {nc \in (SUBSET Ns) \X (SUBSET Cs) : NoneAstray(nc[1], nc[2])}}
            \cup UNION {{[Left(nc[1], nc[2]) EXCEPT !.brokenN = Put(@, q, nodes[q].kind)] : q \in Ns \ nc[1]}
                        \cup {[Left(nc[1], nc[2]) EXCEPT !.brokenC = @ \cup {c}]
                               : c \in {c \in Cs \ nc[2] : c[1] \notin DOMAIN nodes \/ c[1] \in nc[1]}}
                        : nc \in {nc \in (SUBSET Ns) \X (SUBSET Cs) : NoneAstray(nc[1], nc[2])}}
    [] op.op = "open_or_create" /\ entry # "ok" -> {[Now EXCEPT !.entry = "broken"]}
    [] OTHER -> {}

-----------------------------------------------------------------------------
(* Known deviations *)
Took(s, what) == [s EXCEPT !.used = @ \cup {what}]

(* A broken document is in the way of the calls that would write it again.    *)
DocumentStays(op) ==
  \/ op.op \in {"set_attributes", "create_group", "create_array"} /\ op.path \in DOMAIN brokenN
  \/ op.op = "open_or_create" /\ entry = "broken"
StaysOutcomes(op) ==
  {With(Err("any"), Took(Now, "document-crash"))}
  \cup (IF op.op = "create_group" /\ brokenN[op.path] = "group"
        THEN {With(Ok(""), Took(Now, "document-crash"))} ELSE {})

(* A broken chunk is in the way of writing some of its cells. *)
ChunkStays(op) == PartlyWritten(op) \cap brokenC # {}
ChunkOutcomes(op) ==
  LET bad == PartlyWritten(op) \cap brokenC IN
  {With(Err("any"), Took(s, "region-crash")) : s \in {s \in Cut(op) : bad \subseteq s.brokenC}}

Undisturbed(op) ==
  IF ~Deviate THEN Intended(op)
  ELSE IF DocumentStays(op) THEN StaysOutcomes(op)
  ELSE IF ChunkStays(op) THEN ChunkOutcomes(op)
  ELSE Intended(op)

(* A call during which the storage fails succeeds fully, or fails. *)
Faulty(op) ==
  Undisturbed(op) \cup {With(Err("any"), s) : s \in Cut(op)}
  \* of an array that cannot be looked at this says that it is none
  \cup (IF op.op = "array_exists" THEN {With(Ok(FALSE), Now)} ELSE {})

-----------------------------------------------------------------------------
DInit == Init /\ brokenC = {} /\ brokenN = Empty /\ entry = "ok" /\ used = {}

(* What the properties say of a call cut short (C14, C17), as relations of     *)
(* the states before and after; checked exhaustively in MCDisturb.            *)

(* values that the call does not write or remove *)
OtherChunks(op) == {c \in DOMAIN chunks : c \notin WrittenChunks(op)}
OtherNodes(op) == {q \in DOMAIN nodes :
   CASE op.op \in {"create_group", "create_array", "set_attributes"} -> q # op.path
     [] op.op = "remove" -> ~IsPrefixOf(op.path, q)
     [] OTHER -> TRUE}
Intact(op, s) ==
  /\ \A c \in OtherChunks(op) : c \in DOMAIN s.chunks /\ s.chunks[c] = chunks[c]
                                /\ (c \in s.brokenC => c \in brokenC)
  /\ \A c \in DOMAIN s.chunks : c \in DOMAIN chunks \/ c \in WrittenChunks(op)
  /\ \A q \in OtherNodes(op) : q \in DOMAIN s.nodes /\ s.nodes[q] = nodes[q]
                               /\ (q \in DOMAIN s.brokenN => q \in DOMAIN brokenN)
  /\ \A q \in DOMAIN s.nodes : q \in DOMAIN nodes \/ q = op.path

AtMostOneBroken(s) == Cardinality(s.brokenC \ brokenC) + Cardinality(DOMAIN s.brokenN \ DOMAIN brokenN) =< 1

(* no array to be seen has lost chunks, if it was to be removed *)
NoneLost(op, s) ==
  op.op = "remove" => \A q \in DOMAIN s.nodes \ DOMAIN s.brokenN :
     s.nodes[q].kind = "array" =>
       \A c \in DOMAIN chunks : c[1] = q => c \in DOMAIN s.chunks /\ (c \in s.brokenC => c \in brokenC)

(* a chunk reads as it was, or as it would be, or not at all *)
NeverOther(op, s) ==
  \A c \in DOMAIN s.chunks \ s.brokenC :
     \/ c \in DOMAIN chunks /\ s.chunks[c] = chunks[c]
     \/ \E o \in Outcomes(op) : c \in DOMAIN o.chunks /\ s.chunks[c] = o.chunks[c]
CutSound(op) == \A s \in Cut(op) :
  Intact(op, s) /\ AtMostOneBroken(s) /\ NoneLost(op, s) /\ NeverOther(op, s)
=============================================================================
