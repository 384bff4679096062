--------------------------------- MODULE MCPaths ---------------------------------
(* A walk along components in a tree of directories, of which the base is one at   *)
(* depth Above: Leaves and Resolve say where the walk has been and where it is.    *)
EXTENDS Paths
CONSTANTS Above, MaxLen, Names
VARIABLES key, at, been
vars == <<key, at, been>>
Base == [i \in 1..Above |-> "up"]
Init == key = <<>> /\ at = Base /\ been = {Base}
Go(c) == CASE c = "." -> at
           [] c = ".." -> IF at = <<>> THEN at ELSE SubSeq(at, 1, Len(at) - 1)
           [] OTHER -> Append(at, c)
Next == /\ Len(key) < MaxLen
        /\ \E c \in Names \cup {"..", "."} :
             key' = Append(key, c) /\ at' = Go(c) /\ been' = been \cup {Go(c)}
Spec == Init /\ [][Next]_vars
Inside(d) == Len(d) >= Above /\ SubSeq(d, 1, Above) = Base
Right == Leaves(key) = (\E d \in been : ~Inside(d))
Where == ~Leaves(key) => at = Base \o Resolve(key)
(* prefixes of what leads outside do not return                                     *)
Final == [][Leaves(key) => Leaves(key')]_vars
(* below a directory two levels down, two more are to be had                         *)
Slack == \A op \in {"exists", "read_chunk"} : Leaves(KeyOf(op, key, <<"c0">>)) =
           (\E i \in 1..Len(key) : Depth(SubSeq(key, 1, i)) < -2)
Agree == \A op \in MetaOps, p \in ChunkOps :
           Leaves(KeyOf(op, key, <<>>)) = Leaves(KeyOf(p, key, <<"c0", "1">>))
==================================================================================
