---------------------------------- MODULE Builds ----------------------------------
(* One hierarchy, used by programs built with different features of the library.  *)
(*                                                                                 *)
(* A build is a set of features; it offers the codecs some feature of it provides. *)
(* Codecs have names: one in metadata documents, and those programs may give, in   *)
(* any case.  The hierarchy maps paths to arrays, which are                        *)
(* [codec, conf, attrs, chunks], with chunks a function from positions to what     *)
(* they hold (any value, or None).                                                 *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Features == {"bzip", "gzip", "gzip_pure", "lz", "lz_pure", "xz"}
Codecs == {"raw", "bzip2", "gzip", "lz4", "xz"}
(* features one of which is needed; none for no codec                              *)
Providers(c) == CASE c = "raw" -> {} [] c = "bzip2" -> {"bzip"} [] c = "xz" -> {"xz"}
                  [] c = "gzip" -> {"gzip", "gzip_pure"} [] c = "lz4" -> {"lz", "lz_pure"}
Offers(b, c) == Providers(c) = {} \/ Providers(c) \cap b # {}
DefaultConf(c) == CASE c = "raw" -> "" [] c = "gzip" -> "-1" [] c = "bzip2" -> "9"
                    [] c = "lz4" -> "65536" [] c = "xz" -> "6"

(* --- names ------------------------------------------------------------------------ *)
Upper == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
Lower == "abcdefghijklmnopqrstuvwxyz"
LowerOf(ch) == IF \E i \in 1..26 : SubSeq(Upper, i, i) = ch
               THEN LET i == CHOOSE i \in 1..26 : SubSeq(Upper, i, i) = ch IN SubSeq(Lower, i, i)
               ELSE ch
RECURSIVE Folded(_)
Folded(s) == IF Len(s) = 0 THEN "" ELSE LowerOf(SubSeq(s, 1, 1)) \o Folded(SubSeq(s, 2, Len(s)))
None == "none"
(* the codec a program gets for a name, with its default configuration               *)
Named(b, s) == IF Folded(s) \in Codecs /\ Offers(b, Folded(s)) THEN Folded(s) ELSE None

(* --- calls ------------------------------------------------------------------------- *)
(* [b |-> build, c |-> name, ...]; what they answer is r, [t |-> "ok" or "err", ...].  *)
Refused(r, st, st2) == r.t = "err" /\ st2 = st
New(e) == [codec |-> e.codec, conf |-> e.conf, attrs |-> "{}", chunks |-> [p \in {} |-> ""]]
Chunk(a, p) == IF p \in DOMAIN a.chunks THEN a.chunks[p] ELSE None
With(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Without(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Allowed(st, e, r, st2) ==
  CASE e.c = "parse" ->       \* a name given by a program
         /\ st2 = st
         /\ LET n == Named(e.b, e.name) IN
            IF n = None THEN r.t = "err" ELSE r.t = "ok" /\ r.codec = n /\ r.conf = DefaultConf(n)
    [] e.c = "show" ->        \* the text of a codec, which names it
         /\ st2 = st
         /\ IF Offers(e.b, e.codec) THEN r.t = "ok" /\ Named(e.b, r.name) = e.codec ELSE r.t = "err"
    [] e.c = "create" ->
         IF Offers(e.b, e.codec) THEN r.t = "ok" /\ st2 = With(st, e.path, New(e))
         ELSE Refused(r, st, st2)
    [] e.c = "meta" ->        \* what a program sees declared
         /\ st2 = st
         /\ IF e.path \notin DOMAIN st \/ ~Offers(e.b, st[e.path].codec) THEN r.t = "err"
            ELSE r.t = "ok" /\ r.codec = st[e.path].codec /\ r.conf = st[e.path].conf
    \* chunks are read and written with what "meta" gives
    [] e.c = "write" ->
         IF e.path \in DOMAIN st /\ Offers(e.b, st[e.path].codec)
         THEN r.t = "ok" /\ st2 = [st EXCEPT ![e.path].chunks = With(@, e.pos, e.data)]
         ELSE Refused(r, st, st2)
    [] e.c = "read" ->
         IF e.path \in DOMAIN st /\ Offers(e.b, st[e.path].codec)
         THEN r.t = "ok" /\ st2 = st /\ r.data = Chunk(st[e.path], e.pos)
         ELSE Refused(r, st, st2)
    \* what is not about the codec may be done without it, or be refused
    [] e.c = "exists" -> st2 = st /\ r.t = "ok" /\ r.is = (e.path \in DOMAIN st)
    \* an array that cannot be understood may not count as one
    [] e.c = "array_exists" ->
         /\ st2 = st
         /\ \/ r.t = "ok" /\ r.is = (e.path \in DOMAIN st)
            \/ (r.t = "err" \/ ~r.is) /\ e.path \in DOMAIN st /\ ~Offers(e.b, st[e.path].codec)
    [] e.c = "attrs" ->
         \/ r.t = "ok" /\ e.path \in DOMAIN st /\ r.attrs = st[e.path].attrs /\ st2 = st
         \/ Refused(r, st, st2) /\ (e.path \in DOMAIN st => ~Offers(e.b, st[e.path].codec))
    [] e.c = "setattrs" ->
         \/ /\ e.path \in DOMAIN st
            /\ r.t = "ok" /\ st2 = [st EXCEPT ![e.path].attrs = e.attrs]
         \/ Refused(r, st, st2) /\ (e.path \in DOMAIN st => ~Offers(e.b, st[e.path].codec))
    [] e.c = "remove" ->
         /\ r.t = "ok" /\ st2 = Without(st, e.path)
===================================================================================
