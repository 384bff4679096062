----------------------------- MODULE MetadataTrace -----------------------------
(* Documents stored and loaded by the library, decided by Metadata.            *)
EXTENDS Metadata, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
ToSet(s) == {s[i] : i \in 1..Len(s)}
(* a view as reported by a program, as far as it can see                      *)
Same(v, w) == /\ v.shape = w.shape /\ v.chunk = w.chunk /\ v.sep = w.sep /\ v.dt = w.dt
              /\ v.ext = w.ext /\ v.layout = w.layout /\ v.codec = w.codec /\ v.conf = w.conf
              /\ v.fill = w.fill /\ ToSet(v.attrs) = w.attrs /\ Len(v.attrs) = Cardinality(w.attrs)
              /\ v.exts = w.exts /\ v.ndim = Len(w.shape)
Good(e) ==
  CASE e.op = "create" -> /\ e.ok /\ e.eq
                          /\ ToSet(e.leaves) = Leaves(e.d) /\ Same(e.view, View(e.d))
    [] e.op = "load" -> LET L == ToSet(e.leaves) IN
         /\ e.res # "panic"
         /\ ~e.json => e.res = "err"
         /\ e.json => /\ MustReject(L) => e.res = "err"
                      /\ MustAccept(L) => e.res = "ok"
                      /\ e.res = "ok" /\ ~Unclear(L) => Same(e.view, ViewOf(L))
    [] e.op = "dtype" ->
         /\ e.res # "panic"
         /\ KnownType(e.text) => e.res = "ok" /\ e.dt = e.text /\ e.ser = e.text
         /\ ~KnownType(e.text) /\ ~UnclearType(e.text) => e.res = "err"
    [] e.op = "attrs" ->
         /\ e.res # "panic"
         /\ (~e.json \/ e.kind # "obj" \/ e.akind \notin {"obj", "none"}) => e.res = "err"
         /\ (e.json /\ e.kind = "obj" /\ e.akind \in {"obj", "none"}) =>
              e.res = "ok" /\ ToSet(e.got) = ToSet(e.attrs) /\ Len(e.got) = Len(e.attrs)
    [] e.op = "chunk" ->      \* a damaged value: never other elements
         /\ e.res # "panic"
         /\ e.res = "ok" => ~e.short /\ e.same
Init == l = 1
Next == /\ l =< Len(Trace) /\ l' = l + 1
        /\ IF Good(Trace[l]) THEN TRUE ELSE PrintT(<<"REJECTED", l, Trace[l]>>) /\ FALSE
Spec == Init /\ [][Next]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
===============================================================================
