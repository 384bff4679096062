-------------------------------- MODULE BigNat --------------------------------
(* Natural numbers too large for TLC: sequences of digits in base 10^4, least *)
(* significant first, without leading zeros (so 0 is the empty sequence).     *)
EXTENDS Naturals, Sequences

Base == 10000
RECURSIVE Norm(_)
Norm(a) == IF a = <<>> THEN a
           ELSE IF a[Len(a)] = 0 THEN Norm(SubSeq(a, 1, Len(a) - 1)) ELSE a
D(a, i) == IF i =< Len(a) THEN a[i] ELSE 0
Max2(x, y) == IF x > y THEN x ELSE y

RECURSIVE AddFrom(_, _, _, _)
AddFrom(a, b, i, carry) ==
  IF i > Max2(Len(a), Len(b)) THEN (IF carry = 0 THEN <<>> ELSE <<carry>>)
  ELSE LET t == D(a, i) + D(b, i) + carry
       IN <<t % Base>> \o AddFrom(a, b, i + 1, t \div Base)
Add(a, b) == AddFrom(a, b, 1, 0)
One == <<1>>

RECURSIVE ScaleFrom(_, _, _, _)
ScaleFrom(a, d, i, carry) ==
  IF i > Len(a) THEN (IF carry = 0 THEN <<>> ELSE <<carry>>)
  ELSE LET t == a[i] * d + carry IN <<t % Base>> \o ScaleFrom(a, d, i + 1, t \div Base)
RECURSIVE MulFrom(_, _, _)
MulFrom(a, b, i) == IF i > Len(b) THEN <<>>
                    ELSE Add(Norm(ScaleFrom(a, b[i], 1, 0)),
                             IF MulFrom(a, b, i + 1) = <<>> THEN <<>>
                             ELSE <<0>> \o MulFrom(a, b, i + 1))
Mul(a, b) == Norm(MulFrom(a, b, 1))

RECURSIVE LessAt(_, _, _)
LessAt(a, b, i) == IF i = 0 THEN FALSE
                   ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE LessAt(a, b, i - 1)
Less(a, b) == IF Len(a) # Len(b) THEN Len(a) < Len(b) ELSE LessAt(a, b, Len(a))
Leq(a, b) == a = b \/ Less(a, b)
MinB(a, b) == IF Less(a, b) THEN a ELSE b
MaxB(a, b) == IF Less(a, b) THEN b ELSE a
RECURSIVE ProdB(_, _)
ProdB(s, i) == IF i > Len(s) THEN One ELSE Mul(s[i], ProdB(s, i + 1))
RECURSIVE ToBig(_)
ToBig(n) == IF n = 0 THEN <<>> ELSE <<n % Base>> \o ToBig(n \div Base)
===============================================================================
