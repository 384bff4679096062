-------------------------------- MODULE Numbers --------------------------------
(* Floating point numbers in stored documents: attributes and fill values, by   *)
(* name, of one node.  A number is its bit pattern, as a sequence of limbs,     *)
(* most significant first: patterns of one sign are in the order of numbers.    *)
(*                                                                             *)
(* What is stored is what is read, bit by bit.  The deviation, enabled by       *)
(* Deviate: each reading of a document may take a number whose decimal text     *)
(* has many digits or a large exponent for one within two places of it.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Limb, Deviate
VARIABLES val,     \* name -> [bits, exact, n]: n counts the times it was read and stored again
          used     \* the deviations taken

RECURSIVE Plus(_, _)
Plus(b, k) == IF b = <<>> THEN <<>>
              ELSE LET s == b[Len(b)] + k
                   IN Append(Plus(SubSeq(b, 1, Len(b) - 1), s \div Limb), s % Limb)
Near(a, b, n) == \E k \in (0 - n)..n : Plus(a, k) = b
Places == 2

(* texts that every reader of JSON takes exactly *)
Exact(digits, exp) == digits =< 15 /\ exp \in (0 - 22)..22

Names(vs) == {vs[i].name : i \in 1..Len(vs)}
Of(vs, x) == vs[CHOOSE i \in 1..Len(vs) : vs[i].name = x]
Given(v) == [bits |-> v.bits, exact |-> Exact(v.digits, v.exp), n |-> 0]
Again(old) == [old EXCEPT !.n = @ + 1]

Create(vs) == /\ val' = [x \in Names(vs) |-> Given(Of(vs, x))] /\ UNCHANGED used
Set(vs) == /\ val' = [x \in DOMAIN val \cup Names(vs) |->
                        IF x \in Names(vs) THEN Given(Of(vs, x)) ELSE Again(val[x])]
           /\ UNCHANGED used

(* a number as it is read; from a document, or, unstored, as it was given *)
Reads(x, bits, stored) ==
  \/ bits = val[x].bits
  \/ Deviate /\ stored /\ ~val[x].exact /\ Near(val[x].bits, bits, Places * (val[x].n + 1))
Read(vs, stored) ==
  /\ \A i \in 1..Len(vs) : vs[i].name \in DOMAIN val /\ Reads(vs[i].name, vs[i].bits, stored)
  /\ used' = IF \A i \in 1..Len(vs) : vs[i].bits = val[vs[i].name].bits THEN used
             ELSE used \cup {"float-digits"}
  /\ UNCHANGED val
================================================================================
