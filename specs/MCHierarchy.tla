----------------------------- MODULE MCHierarchy -----------------------------
(* Small exhaustive configurations of Hierarchy.  The properties are checked  *)
(* on all of their behaviours, and each transition is printed (when Emit) as  *)
(* a test: the calls leading to the state, the call, its allowed results,     *)
(* and what the store has to hold afterwards.                                 *)
EXTENDS Hierarchy, Json

CONSTANTS Profile, Emit, MaxLen
VARIABLE hist
MCSuffix == ".json"

G1 == [shape |-> <<3>>, cshape |-> <<2>>, order |-> "C", fill |-> "00", sep |-> "/"]
G2 == [shape |-> <<5>>, cshape |-> <<2>>, order |-> "C", fill |-> "07", sep |-> "/"]
G3 == [shape |-> <<3, 2>>, cshape |-> <<2, 2>>, order |-> "F", fill |-> "07", sep |-> "/"]
G4 == [shape |-> <<2, 3>>, cshape |-> <<2, 2>>, order |-> "C", fill |-> "07", sep |-> "."]
G5 == [shape |-> <<>>, cshape |-> <<>>, order |-> "C", fill |-> "07", sep |-> "/"]
\* M1 .. M5 name the metadata having these geometries; they are spelled out
\* by the driver.

A == <<"a">>   B == <<"ab">>  C == <<"a", "b">>  D == <<"a", "b", "ab">>  R == <<>>
E == <<"a.b">>

Reads(p) == {[op |-> o, path |-> p] :
  o \in {"list_attributes", "exists", "array_exists", "get_meta", "list_nodes"}}
K1 == {<<"k", "1">>}   K2 == {<<"k", "2">>}   J1 == {<<"j", "1">>}   KJ == {<<"j", "2">>, <<"k", "1">>}
\* The arguments must be sequences, for they are printed.
RECURSIVE AttrSeq(_)
AttrSeq(s) == IF s = {} THEN <<>> ELSE LET x == CHOOSE x \in s : TRUE IN <<x>> \o AttrSeq(s \ {x})
SetA(p, s) == [op |-> "set_attributes", path |-> p, attrs |-> s]
MkArr(p, m, s) == [op |-> "create_array", path |-> p, meta |-> m, attrs |-> s]
Wr(p, pos, d, good) == [op |-> "write_chunk", path |-> p, pos |-> pos, data |-> d, sep |-> "/", good |-> good]
Rd(p, pos, good) == [op |-> "read_chunk", path |-> p, pos |-> pos, good |-> good]

NodeOps == LET P == {R, A, B, C} IN
  UNION {Reads(p) : p \in P \cup {D}}
  \cup {[op |-> o, path |-> p] : o \in {"create_group", "remove"}, p \in P}
  \cup {MkArr(p, "M1", {}) : p \in {A, B, C}}
  \cup {SetA(p, K1) : p \in {A, C}}
  \cup {Wr(p, <<0>>, <<"01", "02">>, TRUE) : p \in {A, C}}
  \cup {Rd(p, <<0>>, TRUE) : p \in {A, C}}

AttrOps == LET P == {A, C} IN
  {[op |-> "create_group", path |-> p] : p \in P}
  \cup {MkArr(p, "M1", s) : p \in P, s \in {{}, K1}}
  \cup {SetA(p, s) : p \in P, s \in {{}, K1, K2, J1, KJ}}
  \cup {[op |-> o, path |-> p] : o \in {"list_attributes", "get_meta"}, p \in P}
  \cup {[op |-> "remove", path |-> p] : p \in P}

Datas == {<<"01", "02">>, <<"03", "ff">>}
ChunkOps == LET P == {A, E} IN
  {MkArr(p, "M1", {}) : p \in P}
  \cup {[op |-> "remove", path |-> p] : p \in P}
  \cup {Wr(p, <<i>>, d, TRUE) : p \in P, i \in 0..1, d \in Datas}
  \cup {Wr(A, <<i>>, d, FALSE) : i \in 0..1, d \in {<<>>, <<"01">>, <<"01", "02", "03">>, <<"0102", "0304">>}}
  \cup {Rd(p, <<i>>, TRUE) : p \in P, i \in 0..1}
  \cup {Rd(A, <<0>>, FALSE)}
  \cup {[op |-> "delete_chunk", path |-> p, pos |-> <<i>>] : p \in P, i \in 0..1}
  \cup {[op |-> "read_chunk_into", path |-> A, pos |-> <<i>>, b |-> "b:u8"] : i \in 0..1}
  \cup {[op |-> "buf_new", b |-> "b:u8", pos |-> <<9, 9>>, data |-> <<"aa", "bb", "cc">>]}
  \cup {[op |-> "buf_new", b |-> "b:u8", pos |-> <<>>, data |-> <<>>]}
  \cup {[op |-> "buf_like", b |-> "b:u8", pos |-> <<7>>, data |-> d] : d \in {<<>>, <<"ee">>, <<"04", "05", "06", "07">>}}
  \cup {[op |-> "buf_size", b |-> "b:u8", pos |-> <<6, 6>>, n |-> n] : n \in {0, 1, 5}}

Boxes(g, slack) ==
  {<<off, sh>> : off \in Box([i \in 1..Len(g.shape) |-> g.shape[i] + slack]),
                 sh \in Box([i \in 1..Len(g.shape) |-> g.shape[i] + slack])}
RegionOps(m, g, vals, init) ==
  {MkArr(A, m, {})}
  \cup UNION {{[op |-> "write_region", path |-> A, g |-> g, off |-> b[1], shape |-> b[2],
         data |-> [i \in 1..Size(b[2]) |-> IF i % 2 = 1 THEN v[1] ELSE v[2]],
         good |-> TRUE, typed |-> TRUE, fillok |-> TRUE] : b \in Boxes(g, 1)} : v \in vals}
  \cup {[op |-> "read_region", path |-> A, g |-> g, off |-> b[1], shape |-> b[2],
         init |-> "", good |-> TRUE, typed |-> TRUE, fillok |-> TRUE] : b \in Boxes(g, 1)}
  \cup {[op |-> "read_region", path |-> A, g |-> g, off |-> b[1], shape |-> b[2],
         init |-> i, good |-> TRUE, typed |-> TRUE, fillok |-> TRUE] : b \in Boxes(g, 0), i \in init}
  \cup {[op |-> "delete_chunk", path |-> A, pos |-> p] :
         p \in Box(GridShape(g))}

Ops == CASE Profile = "nodes"  -> NodeOps
         [] Profile = "attrs"  -> AttrOps
         [] Profile = "chunks" -> ChunkOps
         [] Profile = "region1" -> RegionOps("M2", G2, {<<"01", "02">>}, {"aa"})
         [] Profile = "region1b" -> RegionOps("M2", G2, {<<"01", "02">>, <<"03", "03">>}, {"aa"})
         [] Profile = "region2f" -> RegionOps("M3", G3, {<<"01", "01">>}, {})
         [] Profile = "region2c" -> RegionOps("M4", G4, {<<"01", "02">>}, {})
         [] Profile = "region0" -> RegionOps("M5", G5, {<<"01", "02">>, <<"02", "01">>}, {"aa"})

(* Calls on chunks are about arrays that exist, reads into buffers that do,    *)
(* and no node is created below an array.                                     *)
Sensible(op) ==
  /\ op.op \in {"write_chunk", "read_chunk", "read_chunk_into", "delete_chunk", "write_region", "read_region"}
       => IsArray(op.path)
  /\ op.op \in {"read_chunk_into", "buf_like", "buf_size"} => op.b \in DOMAIN bufs
  /\ op.op \in {"create_group", "create_array"} =>
       \A q \in DOMAIN nodes : IsArray(q) => ~Below(q, op.path)
  /\ op.op = "create_array" => \A q \in DOMAIN nodes : ~Below(op.path, q)

Printable(op) == IF "attrs" \in DOMAIN op THEN [op EXCEPT !.attrs = AttrSeq(@)] ELSE op

MCInit == Init /\ hist = <<>>
MCNext == \E op \in Ops : /\ Sensible(op) /\ Call(op)
                          /\ hist' = IF UNCHANGED state THEN hist ELSE Append(hist, Printable(op))

PrintAttrs(res) ==
  IF res.t = "ok" /\ last'.op.op = "list_attributes" THEN [res EXCEPT !.v = AttrSeq(@)]
  ELSE IF res.t = "ok" /\ last'.op.op = "get_meta" THEN [res EXCEPT !.v.attrs = AttrSeq(@)]
  ELSE res
EmitTest == Emit => PrintT(ToJson([
   hist |-> hist, op |-> Printable(last'.op), res |-> PrintAttrs(last'.res),
   same |-> (nodes' = nodes /\ chunks' = chunks /\ bufs' = bufs),
   docs |-> {[key |-> MetaKey(p, nodes'[p].kind), kind |-> nodes'[p].kind,
              meta |-> nodes'[p].meta, attrs |-> AttrSeq(nodes'[p].attrs)] : p \in DOMAIN nodes'},
   vals |-> {[key |-> ChunkKey(c[1], c[2], chunks'[c].sep), data |-> chunks'[c].data] : c \in DOMAIN chunks'},
   bufs |-> {[b |-> b, pos |-> bufs'[b].pos, data |-> bufs'[b].data] : b \in DOMAIN bufs'}]))

Short == Len(hist) =< MaxLen
MCSpec == MCInit /\ [][MCNext]_<<state, last, tick, hist>>
Region2F == CellFrame(G3, A)
Region2C == CellFrame(G4, A)
Region1 == CellFrame(G2, A)
Region0 == CellFrame(G5, A)
=============================================================================
