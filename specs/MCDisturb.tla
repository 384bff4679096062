------------------------------ MODULE MCDisturb ------------------------------
(* Small exhaustive configuration of Disturb: at every state of a small       *)
(* hierarchy each call can be done, or be cut short (once or twice).           *)
EXTENDS Disturb
CONSTANT Cuts
VARIABLES cuts,  \* how many there were
  cutop, want     \* the call cut short last, and what it was to make visible
MCSuffix == ".json"

G == [shape |-> <<3>>, cshape |-> <<2>>, order |-> "C", fill |-> "00", sep |-> "/"]
R == <<>>  A == <<"a">>  C == <<"a", "b">>  B == <<"b">>
Arr(p) == [op |-> "create_array", path |-> p, meta |-> "M", attrs |-> {}]
Wr(p, i, d) == [op |-> "write_chunk", path |-> p, pos |-> <<i>>, data |-> d, sep |-> "/", good |-> TRUE]
Ops ==
  {[op |-> o, path |-> p] : o \in {"remove"}, p \in {R, A, B, C}}
  \cup {[op |-> "create_group", path |-> p] : p \in {A}}
  \cup {Arr(p) : p \in {B, C}}
  \cup {[op |-> "set_attributes", path |-> p, attrs |-> {<<"k", "1">>}] : p \in {A, B}}
  \cup {Wr(p, i, <<"01", IF i = 1 THEN Wild ELSE "02">>) : p \in {C}, i \in 0..1}
  \cup {Wr(B, 0, <<"03", "04">>)}
  \cup {[op |-> "delete_chunk", path |-> C, pos |-> <<0>>]}
  \cup {[op |-> "write_region", path |-> C, g |-> G, off |-> <<1>>, shape |-> <<2>>, data |-> <<"05", "06">>,
         good |-> TRUE, typed |-> TRUE, fillok |-> TRUE]}
  \cup {[op |-> "open_or_create"]}

Sensible(op) == op.op \in {"write_chunk", "delete_chunk", "write_region"} => IsArray(op.path)

None == [op |-> "none"]
Seen(s) == [nodes |-> Drop(s.nodes, DOMAIN s.brokenN), chunks |-> Drop(s.chunks, s.brokenC), entry |-> s.entry]
MCInit == DInit /\ cuts = 0 /\ cutop = None /\ want = {}
Do(op) == \E o \in Undisturbed(op) : Become(o.s) /\ cuts' = cuts /\ cutop' = None /\ want' = {}
CutShort(op) == /\ cuts < Cuts /\ cuts' = cuts + 1 /\ \E s \in Cut(op) : Become(s)
                /\ cutop' = op /\ want' = {Seen(o.s) : o \in Intended(op)}
MCNext == /\ \E op \in Ops : Sensible(op) /\ (Do(op) \/ CutShort(op))
          /\ UNCHANGED <<last, tick>>
MCSpec == MCInit /\ [][MCNext]_<<dstate, cuts, cutop, want, last, tick>>

Typed == /\ TypeOK /\ \A c \in DOMAIN chunks \cup brokenC : c[1] \in {B, C}
(* the properties of each call cut short in each state *)
AllSound == \A op \in Ops : Sensible(op) => CutSound(op)
(* Repeating a call that was cut short has its full effect.  (If it had it     *)
(* already, the call may be refused, as the creation of what there is.)        *)
Repeated == cutop = None \/ ~Sensible(cutop) \/
  \A o \in Undisturbed(cutop) : Seen(o.s) \in want
=============================================================================