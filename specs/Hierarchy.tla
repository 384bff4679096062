------------------------------ MODULE Hierarchy ------------------------------
(***************************************************************************)
(* The observable state machine of a Zarr hierarchy: nodes with metadata   *)
(* documents, the chunks of arrays, the cells of arrays, and the keys all   *)
(* of these are stored under.  One action per public call.                 *)
(*                                                                         *)
(* Every call is described by a record `op` and its allowed outcomes by     *)
(* the set Outcomes(op): records of the result and of the next state.  The  *)
(* exhaustive configuration (MCHierarchy) draws `op` from a small set, the  *)
(* trace configuration (HierarchyTrace) from a recording of the library.    *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

VARIABLES
  nodes,    \* path -> [kind, meta, attrs]   explicit nodes (path: seq of names)
  chunks,   \* <<path, position>> -> [data, sep]   stored chunks
  bufs,     \* buffer id -> [pos, data]      chunk buffers owned by the caller
  ghosts,   \* paths where a store of directories may still show an empty one
  last,     \* [op, res] of the last call; not part of the state proper
  tick      \* flips at every call, so that calls without effect are steps too

state == <<nodes, chunks, bufs, ghosts>>

CONSTANT Suffix   \* the metadata key suffix the entry point declares

Fcn(S, e(_)) == [x \in S |-> e(x)]
Put(f, k, v) == [x \in (DOMAIN f) \cup {k} |-> IF x = k THEN v ELSE f[x]]
Drop(f, S)   == [x \in (DOMAIN f) \ S |-> f[x]]
Empty        == [x \in {} |-> {}]

-----------------------------------------------------------------------------
(* Paths *)

IsPrefixOf(p, q) == Len(p) =< Len(q) /\ SubSeq(q, 1, Len(p)) = p
Below(p, q)      == Len(p) < Len(q) /\ IsPrefixOf(p, q)
Ancestors(p)     == {SubSeq(p, 1, n) : n \in 0..Len(p)}    \* with p itself

Explicit(p) == p \in DOMAIN nodes
IsArray(p)  == Explicit(p) /\ nodes[p].kind = "array"
IsGroup(p)  == Explicit(p) /\ nodes[p].kind = "group"
Implicit(p) == ~Explicit(p) /\ \E q \in DOMAIN nodes : Below(p, q)

(* Names of the immediate children of p that hold something. *)
Children(p) == {q[Len(p) + 1] : q \in {q \in DOMAIN nodes : Below(p, q)}}
GhostChildren(p) == {q[Len(p) + 1] : q \in {q \in ghosts : Below(p, q)}}

-----------------------------------------------------------------------------
(* Keys: strings of the protocol *)

RECURSIVE JoinFrom(_, _, _)
JoinFrom(s, sep, i) ==
  IF i > Len(s) THEN "" ELSE
  IF i = Len(s) THEN s[i] ELSE s[i] \o sep \o JoinFrom(s, sep, i + 1)
Join(s, sep) == JoinFrom(s, sep, 1)

Under(root, p) == IF p = <<>> THEN root ELSE root \o "/" \o Join(p, "/")
MetaKey(p, kind) == Under("meta/root", p) \o "." \o kind \o Suffix
DataKey(p)       == Under("data/root", p)
(* a coordinate in decimal; those too large for TLC are recorded as strings *)
Dec(x) == LET s == ToString(x) IN
          IF SubSeq(s, 1, 1) = "\"" THEN SubSeq(s, 2, Len(s) - 1) ELSE s
ChunkKey(p, pos, sep) ==
  DataKey(p) \o "/c" \o Join([i \in 1..Len(pos) |-> Dec(pos[i])], sep)

EntryKey == "zarr.json"
NodeKeys  == {MetaKey(p, nodes[p].kind) : p \in DOMAIN nodes}
ChunkKeys == {ChunkKey(c[1], c[2], chunks[c].sep) : c \in DOMAIN chunks}
Keys      == NodeKeys \cup ChunkKeys

(* The values: documents as [key, kind, meta, attrs], chunks as [key, data] *)
NodeDocs == {[key   |-> MetaKey(p, nodes[p].kind), kind |-> nodes[p].kind,
              meta  |-> nodes[p].meta, attrs |-> nodes[p].attrs]
             : p \in DOMAIN nodes}

-----------------------------------------------------------------------------
(* Attributes: sets of <<key, value>> pairs, with one value for a key *)

Merge(a, b) == {x \in a : \A y \in b : y[1] # x[1]} \cup b

-----------------------------------------------------------------------------
(* Geometry of arrays.  g is [shape, cshape, order, fill, sep].            *)

CeilDiv(a, b) == (a + b - 1) \div b
RECURSIVE Prod(_, _)
Prod(s, i) == IF i > Len(s) THEN 1 ELSE s[i] * Prod(s, i + 1)
Size(s) == Prod(s, 1)

(* all coordinates c with 0 =< c[i] < s[i] *)
RECURSIVE BoxFrom(_, _)
BoxFrom(s, i) == IF i > Len(s) THEN {<<>>}
                 ELSE {<<x>> \o r : x \in 0..(s[i] - 1), r \in BoxFrom(s, i + 1)}
Box(s) == BoxFrom(s, 1)

(* index, from 1, of local coordinate c in a linear sequence of shape s *)
RECURSIVE IdxC(_, _, _, _)
IdxC(c, s, i, acc) == IF i > Len(s) THEN acc + 1
                      ELSE IdxC(c, s, i + 1, acc * s[i] + c[i])
RECURSIVE IdxF(_, _, _, _)
IdxF(c, s, i, acc) == IF i = 0 THEN acc + 1
                      ELSE IdxF(c, s, i - 1, acc * s[i] + c[i])
RowMajor(c, s) == IdxC(c, s, 1, 0)
ColMajor(c, s) == IdxF(c, s, Len(s), 0)
Linear(c, s, order) == IF order = "C" THEN RowMajor(c, s) ELSE ColMajor(c, s)

(* the inverse: coordinate of 0-based index k *)
RECURSIVE UnC(_, _, _)
UnC(k, s, i) == IF i = 0 THEN <<>> ELSE UnC(k \div s[i], s, i - 1) \o <<k % s[i]>>
RECURSIVE UnF(_, _, _)
UnF(k, s, i) == IF i > Len(s) THEN <<>> ELSE <<k % s[i]>> \o UnF(k \div s[i], s, i + 1)
Unlinear(k, s, order) == IF order = "C" THEN UnC(k, s, Len(s)) ELSE UnF(k, s, 1)

GridShape(g) == [i \in 1..Len(g.shape) |-> CeilDiv(g.shape[i], g.cshape[i])]
InGrid(g, pos) == Len(pos) = Len(g.shape)
                  /\ \A i \in 1..Len(pos) : pos[i] < GridShape(g)[i]
ChunkOf(g, c) == [i \in 1..Len(c) |-> c[i] \div g.cshape[i]]
LocalOf(g, c) == [i \in 1..Len(c) |-> c[i] % g.cshape[i]]
InArray(g, c) == \A i \in 1..Len(c) : c[i] < g.shape[i]
Plus(a, b)  == [i \in 1..Len(a) |-> a[i] + b[i]]
Minus(a, b) == [i \in 1..Len(a) |-> a[i] - b[i]]
Times(a, b) == [i \in 1..Len(a) |-> a[i] * b[i]]
InBox(c, off, sh) == \A i \in 1..Len(c) : off[i] =< c[i] /\ c[i] < off[i] + sh[i]

Wild == "?"     \* content the protocol does not determine (cells off the array)
Matches(seen, want) == want = Wild \/ seen = want

(* the chunks that hold a cell both in the box and in the array *)
TouchedAlong(g, off, sh, i) ==
  LET hi == IF off[i] + sh[i] < g.shape[i] THEN off[i] + sh[i] ELSE g.shape[i]
  IN IF off[i] >= hi THEN {} ELSE (off[i] \div g.cshape[i])..((hi - 1) \div g.cshape[i])
RECURSIVE TouchedFrom(_, _, _, _)
TouchedFrom(g, off, sh, i) ==
  IF i > Len(off) THEN {<<>>}
  ELSE {<<x>> \o r : x \in TouchedAlong(g, off, sh, i), r \in TouchedFrom(g, off, sh, i + 1)}
Touched(g, off, sh) ==
  IF \E i \in 1..Len(off) : TouchedAlong(g, off, sh, i) = {} THEN {}
  ELSE TouchedFrom(g, off, sh, 1)

(* the cell a reader must see *)
Cell(p, g, c) ==
  LET k == <<p, ChunkOf(g, c)>> IN
  IF ~InArray(g, c) THEN Wild
  ELSE IF k \in DOMAIN chunks
       THEN chunks[k].data[Linear(LocalOf(g, c), g.cshape, g.order)]
       ELSE g.fill

(* the content of chunk `pos` after writing `data` (row-major) to the box *)
Written(p, g, off, sh, data, pos) ==
  LET k == <<p, pos>> IN
  [j \in 1..Size(g.cshape) |->
     LET loc == Unlinear(j - 1, g.cshape, g.order)
         c   == Plus(Times(pos, g.cshape), loc)
     IN IF InBox(c, off, sh)
        THEN IF InArray(g, c) THEN data[RowMajor(Minus(c, off), sh)] ELSE Wild
        ELSE IF k \in DOMAIN chunks THEN chunks[k].data[j]
        ELSE IF InArray(g, c) THEN g.fill ELSE Wild]

-----------------------------------------------------------------------------
(* Results *)

Ok(v)  == [t |-> "ok", v |-> v]
Err(k) == [t |-> "err", kind |-> k]      \* k = "any" when no kind is promised

Same(res) == [res |-> res, nodes |-> nodes, chunks |-> chunks, bufs |-> bufs,
              ghosts |-> ghosts]

SameElements(seen, want) ==
  Len(seen) = Len(want) /\ \A i \in 1..Len(want) : Matches(seen[i], want[i])

-----------------------------------------------------------------------------
(* The calls *)

CreateGroup(p) ==
  IF IsArray(p) THEN {Same(Err("AlreadyExists"))}
  ELSE IF IsGroup(p) THEN {Same(Ok(""))}
  ELSE {[Same(Ok("")) EXCEPT
           !.nodes  = Put(nodes, p, [kind |-> "group", meta |-> "", attrs |-> {}]),
           !.ghosts = ghosts \cup Ancestors(p)]}

CreateArray(p, meta, attrs) ==
  IF Explicit(p) THEN {Same(Err("AlreadyExists"))}
  ELSE {[Same(Ok("")) EXCEPT
           !.nodes  = Put(nodes, p, [kind |-> "array", meta |-> meta, attrs |-> attrs]),
           !.ghosts = ghosts \cup Ancestors(p)]}

SetAttributes(p, attrs) ==
  IF ~Explicit(p) THEN {Same(Err("NotFound"))}
  ELSE {[Same(Ok("")) EXCEPT !.nodes[p].attrs = Merge(@, attrs)]}

ListAttributes(p) ==
  IF Explicit(p) THEN {Same(Ok(nodes[p].attrs))} ELSE {Same(Err("NotFound"))}

Exists(p)      == {Same(Ok(Explicit(p)))}
ArrayExists(p) == {Same(Ok(IsArray(p)))}
GetMeta(p)     == IF IsArray(p)
                  THEN {Same(Ok([meta |-> nodes[p].meta, attrs |-> nodes[p].attrs]))}
                  ELSE {Same(Err("NotFound"))}

ListNodes(p) ==
  {Same(Ok(Children(p) \cup G)) : G \in SUBSET (GhostChildren(p) \ Children(p))}
  \cup (IF Explicit(p) \/ Implicit(p) \/ p = <<>> THEN {} ELSE {Same(Err("NotFound"))})

RemoveNode(p) ==
  {[Same(Ok("")) EXCEPT
      !.nodes  = Drop(nodes, {q \in DOMAIN nodes : IsPrefixOf(p, q)}),
      !.chunks = Drop(chunks, {c \in DOMAIN chunks : IsPrefixOf(p, c[1])}),
      !.ghosts = {q \in ghosts : ~IsPrefixOf(p, q)}]}

(* good: the element type is the array's and there is an element per cell *)
WriteChunk(p, pos, data, sep, good) ==
  IF good
  THEN {[Same(Ok("")) EXCEPT !.chunks = Put(chunks, <<p, pos>>, [data |-> data, sep |-> sep])]}
  ELSE {Same(Err("any"))}

ChunkVal(some, pos, data) == [some |-> some, pos |-> pos, data |-> data]
Absent == ChunkVal(FALSE, <<>>, <<>>)

ReadChunk(p, pos, good) ==
  IF <<p, pos>> \in DOMAIN chunks
  THEN IF good THEN {Same(Ok(ChunkVal(TRUE, pos, chunks[<<p, pos>>].data)))}
       ELSE {Same(Err("any"))}
  \* nothing is decoded, so a wrong type need not be noticed
  ELSE {Same(Ok(Absent))} \cup (IF good THEN {} ELSE {Same(Err("any"))})

(* a stored chunk as an array of its cells, in row-major order whatever the  *)
(* layout of the chunk, with its bounds                                      *)
ViewChunk(p, g, pos) ==
  IF <<p, pos>> \notin DOMAIN chunks
  THEN {Same(Ok([some |-> FALSE, off |-> <<>>, shape |-> <<>>, nd |-> <<>>, data |-> <<>>]))}
  ELSE {Same(Ok([some |-> TRUE, off |-> Times(pos, g.cshape), shape |-> g.cshape, nd |-> g.cshape,
                 data |-> [j \in 1..Size(g.cshape) |->
                   chunks[<<p, pos>>].data[Linear(Unlinear(j - 1, g.cshape, "C"), g.cshape, g.order)]]]))}

ReadInto(p, pos, b) ==
  IF <<p, pos>> \in DOMAIN chunks
  THEN LET v == ChunkVal(TRUE, pos, chunks[<<p, pos>>].data) IN
       {[Same(Ok(v)) EXCEPT !.bufs = Put(bufs, b, [pos |-> pos, data |-> v.data])]}
  ELSE {Same(Ok(ChunkVal(FALSE, bufs[b].pos, bufs[b].data)))}

NewBuffer(b, pos, data) ==
  {[Same(Ok("")) EXCEPT !.bufs = Put(bufs, b, [pos |-> pos, data |-> data])]}

(* A buffer made equal to a chunk that the caller has, and one sized for     *)
(* another chunk, whose elements are then not determined.                   *)
LikeBuffer(b, pos, data) ==
  {[Same(Ok(ChunkVal(TRUE, pos, data))) EXCEPT !.bufs = Put(bufs, b, [pos |-> pos, data |-> data])]}
SizeBuffer(b, pos, n) == LikeBuffer(b, pos, [i \in 1..n |-> Wild])

DeleteChunk(p, pos) ==
  {[Same(Ok(TRUE)) EXCEPT !.chunks = Drop(chunks, {<<p, pos>>})]}

(* good: the array of cells and the offset have the array's dimensions;     *)
(* typed: its elements have the array's element type; fillok: its fill value *)
(* denotes one.  Where no chunk is involved a wrong type need not be         *)
(* noticed, nor a bad fill value where it is not needed.                    *)
Unspecified == [t |-> "any"]
Covers(off, sh, o, s) == \A i \in 1..Len(s) : off[i] =< o[i] /\ o[i] + s[i] =< off[i] + sh[i]
RECURSIVE WriteRegion(_, _, _, _, _, _, _, _)
WriteRegion(p, g, off, sh, data, good, typed, fillok) ==
  IF ~good THEN {Same(Err("any"))} ELSE
  LET T == Touched(g, off, sh) IN
  IF ~fillok
  THEN {Same(Err("any"))} \cup
       IF \A t \in T : <<p, t>> \in DOMAIN chunks \/ Covers(off, sh, Times(t, g.cshape), g.cshape)
       THEN WriteRegion(p, g, off, sh, data, good, typed, TRUE) ELSE {}
  ELSE
  IF ~typed THEN {Same(Err("any"))} \cup (IF T = {} THEN {Same(Unspecified)} ELSE {}) ELSE
  {[Same(Ok("")) EXCEPT !.chunks =
      [k \in DOMAIN chunks \cup {<<p, pos>> : pos \in T} |->
         IF k[1] = p /\ k[2] \in T
         THEN [data |-> Written(p, g, off, sh, data, k[2]), sep |-> g.sep]
         ELSE chunks[k]]]}

(* init: for a caller's array, the cell value it holds before, else "" *)
RECURSIVE ReadRegion(_, _, _, _, _, _, _, _)
ReadRegion(p, g, off, sh, init, good, typed, fillok) ==
  IF ~good THEN {Same(Err("any"))} ELSE
  IF ~fillok
  THEN {Same(Err("any"))} \cup
       IF init # "" \/ \A t \in Touched(g, off, sh) : <<p, t>> \in DOMAIN chunks
       THEN ReadRegion(p, g, off, sh, init, good, typed, TRUE) ELSE {}
  ELSE
  IF ~typed THEN {Same(Err("any"))} \cup
    (IF \E t \in Touched(g, off, sh) : <<p, t>> \in DOMAIN chunks THEN {} ELSE {Same(Unspecified)}) ELSE
  {Same(Ok([k \in 1..Size(sh) |->
      LET c  == Plus(off, Unlinear(k - 1, sh, "C"))
          ck == <<p, ChunkOf(g, c)>>
      IN IF ~InArray(g, c) THEN Wild
         ELSE IF init # "" /\ ck \notin DOMAIN chunks THEN init
         ELSE Cell(p, g, c)]))}

-----------------------------------------------------------------------------
(* A call as a record, and its allowed outcomes *)

Outcomes(op) ==
  CASE op.op = "create_group"    -> CreateGroup(op.path)
    [] op.op = "create_array"    -> CreateArray(op.path, op.meta, op.attrs)
    [] op.op = "set_attributes"  -> SetAttributes(op.path, op.attrs)
    [] op.op = "list_attributes" -> ListAttributes(op.path)
    [] op.op = "exists"          -> Exists(op.path)
    [] op.op = "array_exists"    -> ArrayExists(op.path)
    [] op.op = "get_meta"        -> GetMeta(op.path)
    [] op.op = "list_nodes"      -> ListNodes(op.path)
    [] op.op = "remove"          -> RemoveNode(op.path)
    [] op.op = "write_chunk"     -> WriteChunk(op.path, op.pos, op.data, op.sep, op.good)
    [] op.op = "read_chunk"      -> ReadChunk(op.path, op.pos, op.good)
    [] op.op = "view_chunk"      -> ViewChunk(op.path, op.g, op.pos)
    [] op.op = "read_chunk_into" -> ReadInto(op.path, op.pos, op.b)
    [] op.op = "buf_new"         -> NewBuffer(op.b, op.pos, op.data)
    [] op.op = "buf_like"        -> LikeBuffer(op.b, op.pos, op.data)
    [] op.op = "buf_size"        -> SizeBuffer(op.b, op.pos, op.n)
    [] op.op = "delete_chunk"    -> DeleteChunk(op.path, op.pos)
    [] op.op = "write_region"    -> WriteRegion(op.path, op.g, op.off, op.shape, op.data, op.good, op.typed,
                                                   op.fillok)
    [] op.op = "read_region"     -> ReadRegion(op.path, op.g, op.off, op.shape, op.init, op.good, op.typed,
                                                   op.fillok)

Init == /\ nodes = Empty /\ chunks = Empty /\ bufs = Empty /\ ghosts = {<<>>}
        /\ last = [op |-> [op |-> "init"], res |-> Ok("")] /\ tick = FALSE

Call(op) == \E o \in Outcomes(op) :
  /\ nodes' = o.nodes /\ chunks' = o.chunks /\ bufs' = o.bufs /\ ghosts' = o.ghosts
  /\ last' = [op |-> op, res |-> o.res] /\ tick' = ~tick

-----------------------------------------------------------------------------
(* What the listed properties say of this machine: invariants and action    *)
(* properties, checked exhaustively in the small configurations.            *)

TypeOK == /\ \A p \in DOMAIN nodes : nodes[p].kind \in {"group", "array"}
          /\ \A p \in DOMAIN nodes : \A x, y \in nodes[p].attrs : x[1] = y[1] => x = y

(* C02: different nodes or chunks never share a key *)
KeysDistinct ==
  /\ Cardinality(NodeKeys) = Cardinality(DOMAIN nodes)
  /\ Cardinality(ChunkKeys) = Cardinality(DOMAIN chunks)
  /\ NodeKeys \cap ChunkKeys = {}

(* C01: only a write, a delete or a removal at a chunk changes it *)
ChunkFrame == [][\A k \in DOMAIN chunks \cup DOMAIN chunks' :
   (k \in DOMAIN chunks) # (k \in DOMAIN chunks') \/
   (k \in DOMAIN chunks /\ k \in DOMAIN chunks' /\ chunks[k] # chunks'[k])
   => LET op == last'.op IN
      \/ op.op \in {"write_chunk", "delete_chunk"} /\ <<op.path, op.pos>> = k
      \/ op.op = "remove" /\ IsPrefixOf(op.path, k[1]) /\ k \notin DOMAIN chunks'
      \/ op.op = "write_region" /\ op.path = k[1] /\ k[2] \in Touched(op.g, op.off, op.shape)]_tick

(* C08, C09: a node's record changes only by calls on that node, or removal *)
NodeFrame == [][\A p \in DOMAIN nodes \cup DOMAIN nodes' :
   (p \in DOMAIN nodes) # (p \in DOMAIN nodes') \/
   (p \in DOMAIN nodes /\ p \in DOMAIN nodes' /\ nodes[p] # nodes'[p])
   => LET op == last'.op IN
      \/ op.op = "create_group" /\ op.path = p /\ p \notin DOMAIN nodes
      \/ op.op = "create_array" /\ op.path = p /\ p \notin DOMAIN nodes
      \/ op.op = "set_attributes" /\ op.path = p /\ nodes[p].kind = nodes'[p].kind
           /\ nodes[p].meta = nodes'[p].meta
      \/ op.op = "remove" /\ IsPrefixOf(op.path, p) /\ p \notin DOMAIN nodes']_tick

(* C10 *)
RemoveComplete == [][last'.op.op = "remove" =>
   /\ \A p \in DOMAIN nodes' : ~IsPrefixOf(last'.op.path, p)
   /\ \A c \in DOMAIN chunks' : ~IsPrefixOf(last'.op.path, c[1])
   /\ \A p \in DOMAIN nodes : ~IsPrefixOf(last'.op.path, p) => nodes'[p] = nodes[p]
   /\ \A c \in DOMAIN chunks : ~IsPrefixOf(last'.op.path, c[1]) => chunks'[c] = chunks[c]]_tick

(* C13: a refused call changes nothing *)
RefusedUnchanged == [][last'.res.t = "err" => UNCHANGED state]_tick

(* C03: writing a box changes exactly the in-bounds cells of the box *)
CellFrame(g, p) == [][
   LET op == last'.op IN
   op.op = "write_region" /\ last'.res.t = "ok" /\ op.path = p =>
     \A c \in Box(g.shape) :
        LET k == <<p, ChunkOf(g, c)>>
            now == IF k \in DOMAIN chunks'
                   THEN chunks'[k].data[Linear(LocalOf(g, c), g.cshape, g.order)]
                   ELSE g.fill
        IN now = IF InBox(c, op.off, op.shape)
                 THEN op.data[RowMajor(Minus(c, op.off), op.shape)]
                 ELSE Cell(p, g, c)]_tick
=============================================================================
