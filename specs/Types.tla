---------------------------------- MODULE Types ----------------------------------
(* Access to the chunks of an array by element type.                            *)
(*                                                                               *)
(* The array has one dimension, N chunks of C cells.  Its declared data type d   *)
(* is [core |-> "<i4"], or an extension type, [core |-> "", fallback |-> "<i4"]  *)
(* (or "" when it has none).  The store maps positions to the bytes there.       *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS N, C

ElementTypes == {"bool", "u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64",
                 "f16", "f32", "f64", "r8", "r16", "r24", "r32"}
First(s) == SubSeq(s, 1, 1)
Rest(s) == SubSeq(s, 2, Len(s))
Bits(s) == CHOOSE n \in {8, 16, 24, 32, 40, 64, 128} : ToString(n) = s
Bytes(s) == CHOOSE n \in {1, 2, 4, 8} : ToString(n) = s
(* what elements of a type of the program are                                    *)
OfElement(T) == IF T = "bool" THEN <<"bool", 1>>
                ELSE IF First(T) = "r" THEN <<"raw", Bits(Rest(T)) \div 8>>
                ELSE <<First(T), Bits(Rest(T)) \div 8>>
(* what those of a declared type are: byte order is not part of it               *)
Ordered(s) == First(s) \in {"<", ">"}
OfCore(s) == LET k == IF Ordered(s) THEN Rest(s) ELSE s IN
             IF s = "bool" THEN <<"bool", 1>>
             ELSE IF First(k) = "r" THEN <<"raw", Bits(Rest(k)) \div 8>>
             ELSE <<First(k), Bytes(Rest(k))>>
Effective(d) == IF d.core # "" THEN d.core ELSE d.fallback
Accessible(d, T) == Effective(d) # "" /\ OfCore(Effective(d)) = OfElement(T)
Little(d) == First(Effective(d)) = "<"

(* --- elements, most significant byte first, and their stored form -------------- *)
Reversed(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
RECURSIVE Concat(_)
Concat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Concat(Tail(s))
Encode(d, e) == Concat([i \in 1..Len(e) |-> IF Little(d) THEN Reversed(e[i]) ELSE e[i]])
Decode(d, b) == LET w == OfCore(Effective(d))[2] IN
  [i \in 1..(Len(b) \div w) |->
     LET x == SubSeq(b, (i - 1) * w + 1, i * w) IN IF Little(d) THEN Reversed(x) ELSE x]
Zero(d) == [i \in 1..OfCore(Effective(d))[2] |-> 0]

(* --- the chunks ------------------------------------------------------------------ *)
Absent == [some |-> FALSE, bytes |-> <<>>]
Present(b) == [some |-> TRUE, bytes |-> b]
Cells(d, v) == IF v.some THEN Decode(d, v.bytes) ELSE [i \in 1..C |-> Zero(d)]
ChunkOf(i) == (i - 1) \div C                 \* of cell i, from one
InChunk(i) == ((i - 1) % C) + 1
Array(d, st) == [i \in 1..(N * C) |-> Cells(d, st[ChunkOf(i)])[InChunk(i)]]
(* after writing `data` to the cells off+1 .. off+Len(data)                         *)
Covered(off, n) == {ChunkOf(i) : i \in (off + 1)..(off + n)}
Region(d, st, off, data) ==
  LET a == [i \in 1..(N * C) |-> IF i > off /\ i =< off + Len(data) THEN data[i - off]
                                 ELSE Array(d, st)[i]]
  IN [p \in 0..(N - 1) |-> IF p \in Covered(off, Len(data))
        THEN Present(Encode(d, SubSeq(a, p * C + 1, (p + 1) * C))) ELSE st[p]]

(* Calls [c |-> name, T, pos | off and n, data].  What a call may answer -- [t, v]  *)
(* with v the elements read -- and what it leaves.                                   *)
Refused(c, st, r, st2) == r.t = "err" /\ st2 = st
(* A read of nothing by another type neither reads elements nor misleads.            *)
Silent(c, st) == \/ c.c \in {"read_chunk", "read_chunk_into"} /\ ~st[c.pos].some
                 \/ c.c = "read_region" /\ \A p \in Covered(c.off, c.n) : ~st[p].some
Allowed(d, c, st, r, st2) ==
  IF ~Accessible(d, c.T) THEN
    \/ Refused(c, st, r, st2)
    \/ Silent(c, st) /\ st2 = st /\ r.t # "panic"
  ELSE
    /\ r.t = "ok"
    /\ CASE c.c = "write_chunk" -> st2 = [st EXCEPT ![c.pos] = Present(Encode(d, c.data))]
         [] c.c = "write_region" -> st2 = Region(d, st, c.off, c.data)
         [] c.c \in {"read_chunk", "read_chunk_into"} ->
              /\ st2 = st
              /\ r.some = st[c.pos].some
              /\ r.some => r.v = Decode(d, st[c.pos].bytes)
         [] c.c = "read_region" ->
              st2 = st /\ r.v = SubSeq(Array(d, st), c.off + 1, c.off + c.n)
==================================================================================
