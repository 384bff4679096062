--------------------------------- MODULE MCTypes ---------------------------------
(* Small instance of Types: whatever calls are made on whatever is declared,     *)
(* elements are only seen as what they were written as.                           *)
EXTENDS Types
CONSTANTS Declared, Elements, ByteVals
VARIABLES d, st, told        \* told: the elements written last, and as what
vars == <<d, st, told>>
Decl == {IF First(x) = "e" THEN [core |-> "", fallback |-> Rest(x)] ELSE [core |-> x, fallback |-> ""]
         : x \in Declared}
Seqs(S, n) == [1..n -> S]
Data(T, n) == Seqs(Seqs(ByteVals, OfElement(T)[2]), n)
NoTold == [p \in 0..(N - 1) |-> <<>>]
Init == d \in Decl /\ st = [p \in 0..(N - 1) |-> Absent] /\ told = NoTold
Ok == [t |-> "ok"]
WriteChunk == \E T \in Elements, p \in 0..(N - 1) : \E x \in Data(T, C) :
  LET c == [c |-> "write_chunk", T |-> T, pos |-> p, data |-> x] IN
  IF Accessible(d, T) THEN /\ st' = [st EXCEPT ![p] = Present(Encode(d, x))]
                           /\ Allowed(d, c, st, Ok, st')
                           /\ told' = [told EXCEPT ![p] = <<T, x>>] /\ d' = d
  ELSE /\ Allowed(d, c, st, [t |-> "err"], st) /\ ~Allowed(d, c, st, Ok, st) /\ UNCHANGED vars
WriteRegion == \E T \in Elements, o \in 0..(N * C - 1), n \in 1..C : \E x \in Data(T, n) :
  LET c == [c |-> "write_region", T |-> T, off |-> o, n |-> n, data |-> x] IN
  /\ o + n =< N * C /\ Accessible(d, T)
  /\ st' = Region(d, st, o, x) /\ Allowed(d, c, st, Ok, st')
  /\ told' = [p \in 0..(N - 1) |-> IF p \in Covered(o, n)
                THEN <<T, SubSeq(Array(d, st'), p * C + 1, p * C + C)>> ELSE told[p]]
  /\ d' = d
Next == WriteChunk \/ WriteRegion
Spec == Init /\ [][Next]_vars
Same(T, U) == OfElement(T) = OfElement(U)
Faithful == \A p \in 0..(N - 1) :
  IF told[p] = <<>> THEN st[p] = Absent
  ELSE /\ st[p].some /\ Len(st[p].bytes) = C * OfElement(told[p][1])[2]
       /\ \A T \in Elements : LET r == [t |-> "ok", some |-> TRUE, v |-> told[p][2]] IN
            Allowed(d, [c |-> "read_chunk", T |-> T, pos |-> p], st, r, st) = Same(T, told[p][1])
       /\ \A T \in Elements : \A x \in Data(T, C) :
            Allowed(d, [c |-> "read_chunk", T |-> T, pos |-> p], st,
                    [t |-> "ok", some |-> TRUE, v |-> x], st) => x = told[p][2]
(* at most one kind of element goes with an array, in whatever order               *)
OneKind == \A T, U \in Elements : Accessible(d, T) /\ Accessible(d, U) => Same(T, U)
Neutral == \A x, y \in Decl : \A T \in Elements :
  x.core # "" /\ y.core # "" /\ Ordered(x.core) /\ Ordered(y.core) /\ Rest(x.core) = Rest(y.core)
  => Accessible(x, T) = Accessible(y, T)
==================================================================================
