--------------------------------- MODULE MCFill ---------------------------------
(* Fill's arithmetic against its definition, for small formats: every number   *)
(* of a range, and every element value.                                         *)
EXTENDS Fill
CONSTANTS EBits, MBits, Range, NegLo, ExpHi, W
ExpLo == -NegLo
VARIABLES n, e, neg
vars == <<n, e, neg>>
Init == n = 0 /\ e = ExpLo /\ neg = FALSE
Next == \/ neg' = ~neg /\ n' = n /\ e' = e
        \/ n < Range /\ n' = n + 1 /\ UNCHANGED <<e, neg>>
        \/ e < ExpHi /\ e' = e + 1 /\ UNCHANGED <<n, neg>>
Spec == Init /\ [][Next]_vars
x == [neg |-> neg, mag |-> BitsOf(n), exp |-> e]
(* everything in units of 2^-Unit, where all values below are whole            *)
Unit == MBits - EMin(EBits) + (IF ExpLo < 0 THEN -ExpLo ELSE 0)
Scaled == n * 2^(e + Unit)
(* magnitudes of the finite values, by their fields                             *)
ValueOf(f, m) == IF f = 0 THEN m * 2^(EMin(EBits) - MBits + Unit)
                 ELSE (2^MBits + m) * 2^(f - Bias(EBits) - MBits + Unit)
Finite == (0..(2^EBits - 2)) \X (0..(2^MBits - 1))
Abs(a) == IF a < 0 THEN -a ELSE a
MaxFinite == ValueOf(2^EBits - 2, 2^MBits - 1)
Half == 2^(2^EBits - 2 - Bias(EBits) - MBits + Unit) \div 2
FloatExact ==
  LET b == Float(x, EBits, MBits) IN
  IF b = NoValue THEN Scaled >= MaxFinite + Half
  ELSE /\ Len(b) = 1 + EBits + MBits /\ b[1] = (IF neg THEN 1 ELSE 0)
       /\ Scaled < MaxFinite + Half
       /\ LET f == NumOf(SubSeq(b, 2, EBits + 1))
              m == NumOf(SubSeq(b, EBits + 2, Len(b)))
              d == Abs(ValueOf(f, m) - Scaled)
          IN /\ f < 2^EBits - 1
             /\ \A y \in Finite : LET dy == Abs(ValueOf(y[1], y[2]) - Scaled) IN
                  dy >= d /\ (dy = d => y = <<f, m>> \/ m % 2 = 0)
IntExact ==
  LET whole == e >= 0 \/ n % (2^(-e)) = 0
      v == IF e >= 0 THEN n * 2^e ELSE n \div 2^(-e)
      u == Unsigned(x, W)
      s == Signed(x, W)
  IN /\ (u = NoValue) = (~whole \/ (neg /\ v # 0) \/ v >= 2^W)
     /\ u # NoValue => NumOf(u) = v /\ Len(u) = W
     /\ (s = NoValue) = (~whole \/ (IF neg THEN v > 2^(W - 1) ELSE v >= 2^(W - 1)))
     /\ s # NoValue => Len(s) = W /\ NumOf(s) = (IF neg /\ v # 0 THEN 2^W - v ELSE v)
=================================================================================
