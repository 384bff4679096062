------------------------------- MODULE MCNumbers -------------------------------
(* Numbers, with a store whose readers are off by up to Places each time they   *)
(* read what is not exact (Sloppy), or are right: Reads admits what a program   *)
(* then sees, and nothing else.                                                 *)
EXTENDS Numbers, IOUtils
CONSTANTS Width, MaxCalls, Given0
Sloppy == IOEnv.SLOPPY = "1"
Variant == IOEnv.VARIANT           \* "none", or a fault that must be noticed
VARIABLES doc, n, out

Patterns == [1..Width -> 0..Limb - 1]
RECURSIVE NumOf(_)
NumOf(b) == IF b = <<>> THEN 0 ELSE Limb * NumOf(SubSeq(b, 1, Len(b) - 1)) + b[Len(b)]
Top == Limb ^ Width
Middle == {b \in Patterns : NumOf(b) >= 9 /\ NumOf(b) < Top - 9}
\* among them such that their limbs carry
Some == {b \in Middle : NumOf(b) \in Given0}
Vals(x) == {<<[name |-> x, bits |-> b, digits |-> d, exp |-> 0]>> : b \in Some, d \in {15, 16}}

(* what a reader may take the stored pattern for *)
Load(d) == IF Sloppy /\ ~d.exact THEN {Plus(d.bits, k) : k \in (0 - Places)..Places}
           ELSE IF Variant = "cut" THEN {[d.bits EXCEPT ![Width] = 0]}
           ELSE IF Variant = "all-sloppy" THEN {Plus(d.bits, k) : k \in -1..1} ELSE {d.bits}
Stored(v) == [bits |-> v.bits, exact |-> Exact(v.digits, v.exp)]

Init == /\ \E v \in Vals("a") : val = [x \in {"a"} |-> Given(v[1])] /\ doc = [x \in {"a"} |-> Stored(v[1])]
        /\ used = {} /\ n = 0 /\ out = <<>>
SetBoth == \E v \in Vals("b") : \E b \in Load(doc["a"]) :
             /\ Set(v)
             /\ doc' = [x \in {"a", "b"} |-> IF x = "b" THEN Stored(v[1]) ELSE [doc["a"] EXCEPT !.bits = b]]
             /\ out' = <<>>
SetSame == \E v \in Vals("a") : /\ Set(v) /\ out' = <<>>
             /\ doc' = [x \in DOMAIN doc |-> IF x = "a" THEN Stored(v[1])
                                             ELSE [doc[x] EXCEPT !.bits = CHOOSE b \in Load(doc[x]) : TRUE]]
Look == \E x \in DOMAIN doc : \E b \in Load(doc[x]) : out' = <<x, b>> /\ UNCHANGED <<val, used, doc>>
Next == n < MaxCalls /\ n' = n + 1 /\ (SetBoth \/ SetSame \/ Look)
Spec == Init /\ [][Next]_<<val, used, doc, n, out>>

Seen == out # <<>> => Reads(out[1], out[2], TRUE)
Adds == \A b \in Middle, k \in -4..4 : NumOf(Plus(b, k)) = NumOf(b) + k
ASSUME Adds
================================================================================
