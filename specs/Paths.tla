---------------------------------- MODULE Paths ----------------------------------
(* Where the keys of path arguments lead.  A key is a sequence of components:     *)
(* names, ".." and ".".                                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Step(c) == CASE c = ".." -> -1 [] c = "." -> 0 [] OTHER -> 1
RECURSIVE Depth(_)
Depth(k) == IF k = <<>> THEN 0 ELSE Depth(SubSeq(k, 1, Len(k) - 1)) + Step(k[Len(k)])
(* at some point along the components, above where it began                        *)
Leaves(k) == \E i \in 1..Len(k) : Depth(SubSeq(k, 1, i)) < 0
(* what it names, when it stays inside                                              *)
RECURSIVE Resolve(_)
Resolve(k) == IF k = <<>> THEN <<>>
              ELSE LET r == Resolve(SubSeq(k, 1, Len(k) - 1))  c == k[Len(k)] IN
                   CASE c = ".." -> SubSeq(r, 1, Len(r) - 1) [] c = "." -> r [] OTHER -> Append(r, c)
Named(k) == k # <<>> /\ k[Len(k)] \notin {"..", "."}

(* Keys an operation forms from its argument (all lead outside, or none does).     *)
MetaOps == {"create_group", "create_array", "set_attributes", "set_attribute", "list_attributes",
            "exists", "array_exists", "get_meta", "list_nodes", "remove"}
ChunkOps == {"write_chunk", "read_chunk", "read_chunk_into", "delete_chunk", "uri", "write_region",
             "read_region"}
StoreOps == {"store_exists", "store_get", "store_set", "store_erase", "store_erase_prefix", "store_uri",
             "list_dir", "list_prefix"}
(* tail: what follows the path in a chunk's key                                     *)
KeyOf(op, path, tail) == IF op \in StoreOps THEN path
                         ELSE IF op \in ChunkOps THEN <<"data", "root">> \o path \o tail
                         ELSE <<"meta", "root">> \o path
(* The state of the world: the directory itself and all else there is.  A call      *)
(* answers `res` and leaves both as given.                                           *)
CallOK(op, path, tail, res, outside, outside2, inside, inside2) ==
  LET k == KeyOf(op, path, tail) IN
  /\ outside2 = outside
  /\ Leaves(k) => res = "err" /\ inside2 = inside
Creates == {"create_group", "create_array", "write_chunk", "write_region", "store_set"}
(* A value created through a path that stays inside is where the path leads, and    *)
(* is found through it.                                                              *)
MustWork(op, path, tail) == LET k == KeyOf(op, path, tail) IN
  op \in Creates /\ ~Leaves(k) /\ Named(k)
RECURSIVE Join(_)
Join(k) == IF k = <<>> THEN "" ELSE IF Len(k) = 1 THEN k[1]
           ELSE Join(SubSeq(k, 1, Len(k) - 1)) \o "/" \o k[Len(k)]
FileOf(op, path, tail) == Join(Resolve(KeyOf(op, path, tail))) \o
  (CASE op = "create_group" -> ".group.json" [] op = "create_array" -> ".array.json" [] OTHER -> "")
==================================================================================
