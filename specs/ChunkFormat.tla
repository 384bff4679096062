----------------------------- MODULE ChunkFormat -----------------------------
(* What a chunk's value holds once its codec is undone: the elements in        *)
(* linear order, each in the declared width and byte order, and nothing else.  *)
(* An element is the sequence of its bytes, most significant first (raw        *)
(* elements: in the order given).                                             *)
EXTENDS Naturals, Sequences

Width(t) == CASE t \in {"bool", "u8", "i8", "r8"} -> 1
              [] t \in {"u16", "i16", "f16", "r16"} -> 2
              [] t = "r24" -> 3
              [] t \in {"u32", "i32", "f32", "r32"} -> 4
              [] t \in {"u64", "i64", "f64"} -> 8
HasOrder(t) == t \in {"u16", "i16", "f16", "u32", "i32", "f32", "u64", "i64", "f64"}

Reverse(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Stored(t, big, x) == IF HasOrder(t) /\ ~big THEN Reverse(x) ELSE x
(* the k-th byte of the layout of data *)
ByteOf(t, big, data, k) ==
  LET w == Width(t) IN Stored(t, big, data[((k - 1) \div w) + 1])[((k - 1) % w) + 1]
Layout(t, big, data) == [k \in 1..(Len(data) * Width(t)) |-> ByteOf(t, big, data, k)]

(* the elements bytes encode; bools are false exactly when zero *)
Element(t, big, bytes, i) ==
  LET w == Width(t)
      b == SubSeq(bytes, (i - 1) * w + 1, i * w)
  IN IF t = "bool" THEN <<IF b[1] = 0 THEN 0 ELSE 1>> ELSE Stored(t, big, b)
Elements(t, big, bytes, n) == [i \in 1..n |-> Element(t, big, bytes, i)]
Enough(t, bytes, n) == Len(bytes) >= n * Width(t)
===============================================================================
