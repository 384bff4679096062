--------------------------- MODULE ChunkFormatTrace ---------------------------
(* Chunks written and read by the library, with the values in the store as     *)
(* decoded or produced by independent implementations of the codecs.           *)
EXTENDS ChunkFormat, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

(* the bits of start + step * i, as the w low bytes, most significant first; *)
(* on request of a multiple that no compressor makes much of.                *)
Mixed(i) == (((i % 46337) * (i % 46337)) % 65521) \div 7
RECURSIVE Pow(_)
Pow(k) == IF k = 0 THEN 1 ELSE IF k > 3 THEN 0 ELSE 256 * Pow(k - 1)
GenByte(e, i, j) ==          \* element i from 0, byte j from 1
  LET w == Width(e.t)  v == e.start + e.step * (IF e.mix THEN Mixed(i) ELSE i)  s == w - j
  IN IF s > 3 THEN 0 ELSE (v \div Pow(s)) % 256
GenStored(e, k) ==
  LET w == Width(e.t)  i == (k - 1) \div w  j == ((k - 1) % w) + 1
  IN GenByte(e, i, IF HasOrder(e.t) /\ ~e.big THEN w + 1 - j ELSE j)
GenSame(e, bytes) == Len(bytes) = e.n * Width(e.t)
                     /\ \A k \in 1..Len(bytes) : bytes[k] = GenStored(e, k)
(* elements read, as the bytes of all of them most significant first *)
GenRead(e, bytes) == Len(bytes) = e.n * Width(e.t)
  /\ \A k \in 1..Len(bytes) :
       bytes[k] = GenByte(e, (k - 1) \div Width(e.t), ((k - 1) % Width(e.t)) + 1)

Good(e) ==
  CASE e.op = "write" -> e.ok /\ e.decodes /\ e.bytes = Layout(e.t, e.big, e.data)
    [] e.op = "read" -> /\ Enough(e.t, e.bytes, e.n)
                        /\ e.ok /\ e.some /\ e.data = Elements(e.t, e.big, e.bytes, e.n)
    [] e.op = "genwrite" -> e.ok /\ e.decodes /\ GenSame(e, e.bytes)
    [] e.op = "genread" -> GenSame(e, e.bytes) /\ e.ok /\ e.some /\ GenRead(e, e.data)
Init == l = 1
Next == /\ l =< Len(Trace) /\ l' = l + 1
        /\ IF Good(Trace[l]) THEN TRUE ELSE PrintT(<<"REJECTED", l, Trace[l].op>>) /\ FALSE
Spec == Init /\ [][Next]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
===============================================================================
