---------------------------------- MODULE Fill ----------------------------------
(* What a declared fill value denotes in an element type, as bits.             *)
(*                                                                             *)
(* A number is [neg, mag, exp]: the magnitude is mag (binary digits, most      *)
(* significant first) times 2^exp.  Element values are sequences of bits,      *)
(* most significant first.                                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Zeros(n) == [i \in 1..n |-> 0]
RECURSIVE Trim(_)
Trim(b) == IF b = <<>> \/ b[1] = 1 THEN b ELSE Trim(Tail(b))
RECURSIVE Inc(_)                              \* plus one, of the same width; 1..1 grows
Inc(b) == IF b = <<>> THEN <<1>>
          ELSE IF b[Len(b)] = 0 THEN SubSeq(b, 1, Len(b) - 1) \o <<1>>
          ELSE Inc(SubSeq(b, 1, Len(b) - 1)) \o <<0>>
Invert(b) == [i \in 1..Len(b) |-> 1 - b[i]]
Pad(b, w) == Zeros(w - Len(b)) \o b
Last(b, n) == SubSeq(b, Len(b) - n + 1, Len(b))
RECURSIVE BitsOf(_)
BitsOf(n) == IF n = 0 THEN <<>> ELSE BitsOf(n \div 2) \o <<n % 2>>
RECURSIVE NumOf(_)
NumOf(b) == IF b = <<>> THEN 0 ELSE 2 * NumOf(SubSeq(b, 1, Len(b) - 1)) + b[Len(b)]

NoValue == <<"none">>       \* the number denotes no value of the type

(* --- integers --------------------------------------------------------------- *)
Integral(x) == Trim(x.mag) = <<>> \/ x.exp >= 0 \/
               (Len(Trim(x.mag)) > -x.exp /\ Last(x.mag, -x.exp) = Zeros(-x.exp))
Magnitude(x) == LET m == Trim(x.mag) IN
  IF m = <<>> THEN m ELSE IF x.exp >= 0 THEN m \o Zeros(x.exp) ELSE SubSeq(m, 1, Len(m) + x.exp)
Unsigned(x, w) == LET m == Magnitude(x) IN
  IF ~Integral(x) \/ (x.neg /\ m # <<>>) \/ Len(m) > w THEN NoValue ELSE Pad(m, w)
Signed(x, w) == LET m == Magnitude(x) IN
  IF ~Integral(x) THEN NoValue
  ELSE IF ~x.neg \/ m = <<>> THEN IF Len(m) < w THEN Pad(m, w) ELSE NoValue
  ELSE IF Len(m) < w \/ m = <<1>> \o Zeros(w - 1) THEN Last(Inc(Invert(Pad(m, w))), w)
  ELSE NoValue

(* --- floating point: eb bits of exponent, mb of mantissa ----------------------- *)
Bias(eb) == 2^(eb - 1) - 1
EMin(eb) == 1 - Bias(eb)
Sign(neg) == IF neg THEN <<1>> ELSE <<0>>
Infinite(neg, eb, mb) == Sign(neg) \o [i \in 1..eb |-> 1] \o Zeros(mb)
(* the nearest one, the even one of two equally near                              *)
Float(x, eb, mb) ==
  LET m == Trim(x.mag)
      p == mb + 1
      top == Len(m) - 1 + x.exp
      q == IF top - mb > EMin(eb) - mb THEN top - mb ELSE EMin(eb) - mb
      k == q - x.exp                            \* digits beyond the precision
      kept == IF k =< 0 THEN m \o Zeros(-k) ELSE IF k > Len(m) THEN <<>> ELSE SubSeq(m, 1, Len(m) - k)
      rest == IF k =< 0 THEN <<>> ELSE IF k > Len(m) THEN Pad(m, k) ELSE Last(m, k)
      odd == kept # <<>> /\ kept[Len(kept)] = 1
      up == /\ k > 0 /\ rest[1] = 1
            /\ (odd \/ \E i \in 2..k : rest[i] = 1)
      r0 == IF up THEN Inc(kept) ELSE kept
      r == IF Len(r0) > p THEN SubSeq(r0, 1, p) ELSE r0
      q2 == IF Len(r0) > p THEN q + 1 ELSE q
      field == q2 + mb + Bias(eb)
  IN IF m = <<>> THEN Sign(x.neg) \o Zeros(eb + mb)
     ELSE IF Len(r) < p THEN Sign(x.neg) \o Zeros(eb) \o Pad(r, mb)
     ELSE IF field >= 2^eb - 1 THEN NoValue
     ELSE Sign(x.neg) \o Pad(BitsOf(field), eb) \o SubSeq(r, 2, p)

(* --- element types ------------------------------------------------------------------ *)
Types == {"bool", "u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "f16", "f32", "f64",
          "r8", "r16", "r24", "r32"}
Floats == {"f16", "f32", "f64"}
Raws == {"r8", "r16", "r24", "r32"}
WidthOf(T) == CASE T \in {"bool", "u8", "i8", "r8"} -> 8
                [] T \in {"u16", "i16", "f16", "r16"} -> 16
                [] T = "r24" -> 24
                [] T \in {"u32", "i32", "f32", "r32"} -> 32
                [] OTHER -> 64
EB(T) == CASE T = "f16" -> 5 [] T = "f32" -> 8 [] OTHER -> 11
MB(T) == CASE T = "f16" -> 10 [] T = "f32" -> 23 [] OTHER -> 52
Number(x, T) == IF T \in {"u8", "u16", "u32", "u64"} THEN Unsigned(x, WidthOf(T))
                ELSE IF T \in Floats THEN Float(x, EB(T), MB(T)) ELSE Signed(x, WidthOf(T))
Word(s, T) == CASE T \in Floats /\ s = "Infinity" -> Infinite(FALSE, EB(T), MB(T))
                [] T \in Floats /\ s = "-Infinity" -> Infinite(TRUE, EB(T), MB(T))
                [] OTHER -> NoValue
IsNaN(b, T) == /\ \A i \in 2..(EB(T) + 1) : b[i] = 1
               /\ \E i \in (EB(T) + 2)..Len(b) : b[i] = 1
(* A declared value v: [k |-> kind, ...].  Denotes(v, T, b): may the value read  *)
(* be b?  MustFail(v, T): it denotes nothing.                                      *)
Denotes(v, T, b) ==
  CASE v.k = "null" -> b = Zeros(WidthOf(T))
    [] v.k = "bool" -> T = "bool" /\ b = Zeros(7) \o <<IF v.b THEN 1 ELSE 0>>
    [] v.k = "num" -> IF T = "bool" THEN Trim(v.mag) \in {<<>>, <<1>>} /\ b = Pad(Trim(v.mag), 8) /\ v.exp = 0
                      ELSE IF T \in Raws THEN FALSE
                      ELSE Number(v, T) = b
    [] v.k = "str" -> IF T \in Floats /\ v.s = "NaN" THEN IsNaN(b, T) ELSE Word(v.s, T) = b
    [] v.k = "bytes" -> T \in Raws /\ b = v.bits
    [] OTHER -> FALSE
MustSucceed(v, T) ==
  CASE v.k = "null" -> TRUE
    [] v.k = "bool" -> T = "bool"
    [] v.k = "num" -> /\ T \notin {"bool"} \cup Raws
                      \* integers written with a fraction or exponent are unclear
                      /\ (T \in Floats \/ v.int)
                      /\ Number(v, T) # NoValue
    [] v.k = "str" -> T \in Floats /\ (v.s = "NaN" \/ Word(v.s, T) # NoValue)
    [] v.k = "bytes" -> T \in Raws /\ Len(v.bits) = WidthOf(T)
    [] OTHER -> FALSE
=================================================================================
