--------------------------------- MODULE MCBuilds ---------------------------------
(* Every build, and programs of some builds taking turns on one hierarchy.         *)
EXTENDS Builds
CONSTANTS Used, Paths, Posns, Data      \* Used: codecs of arrays
VARIABLES st, told
vars == <<st, told>>
AllBuilds == SUBSET Features
(* builds that differ for the codecs used                                          *)
Turns == {b \in AllBuilds : b \subseteq UNION {Providers(c) : c \in Used}}
Init == st = [p \in {} |-> ""] /\ told = [p \in {} |-> ""]
Calls == [b : Turns, c : {"create"}, path : Paths, codec : Used, conf : {"x"}]
   \cup [b : Turns, c : {"write"}, path : Paths, pos : Posns, data : Data]
   \cup [b : Turns, c : {"setattrs"}, path : Paths, attrs : Data]
   \cup [b : Turns, c : {"remove"}, path : Paths]
After(e) == CASE e.c = "create" -> With(st, e.path, New(e))
              [] e.c = "write" -> IF e.path \in DOMAIN st
                    THEN [st EXCEPT ![e.path].chunks = With(@, e.pos, e.data)] ELSE st
              [] e.c = "setattrs" -> IF e.path \in DOMAIN st THEN [st EXCEPT ![e.path].attrs = e.attrs] ELSE st
              [] e.c = "remove" -> Without(st, e.path)
(* a program without the codec changes no declaration and no chunk                   *)
Harmless(e, s2) == \A p \in DOMAIN st :
  e.path = p /\ ~Offers(e.b, st[p].codec) /\ e.c # "remove" =>
    s2[p].codec = st[p].codec /\ s2[p].conf = st[p].conf /\ s2[p].chunks = st[p].chunks
Next == \E e \in Calls :
  /\ e.c = "create" => e.path \notin DOMAIN st
  /\ \E s2 \in {st, After(e)}, t \in {"ok", "err"} :
       /\ Allowed(st, e, [t |-> t], s2)
       /\ Assert(Harmless(e, s2), <<"harmful", st, e>>)
       /\ st' = s2
       /\ told' = IF t = "err" THEN told
                  ELSE CASE e.c = "write" -> With(told, <<e.path, e.pos>>, e.data)
                         [] e.c = "remove" -> [k \in {k \in DOMAIN told : k[1] # e.path} |-> told[k]]
                         [] OTHER -> told
Spec == Init /\ [][Next]_vars
(* every build that offers the codec reads what any build wrote, and no other does  *)
Exchange == \A p \in DOMAIN st, q \in Posns, b \in Turns, d \in Data \cup {None} :
  Allowed(st, [b |-> b, c |-> "read", path |-> p, pos |-> q], [t |-> "ok", data |-> d], st)
    = (Offers(b, st[p].codec) /\ d = IF <<p, q>> \in DOMAIN told THEN told[<<p, q>>] ELSE None)
(* nothing is told and not there                                                     *)
Kept == \A k \in DOMAIN told : k[1] \in DOMAIN st
(* names, in every build                                                             *)
Spellings(c) == CASE c = "raw" -> {"raw", "Raw", "RAW", "rAw"} [] c = "bzip2" -> {"bzip2", "Bzip2", "BZIP2"}
                  [] c = "gzip" -> {"gzip", "Gzip", "GZIP"} [] c = "lz4" -> {"lz4", "Lz4", "LZ4"}
                  [] c = "xz" -> {"xz", "Xz", "xZ", "XZ"}
Wrong == {"", "zstd", "lz", "gz", "bzip", "raw ", " xz", "gzip2", "lz4 ", "none", "default"}
ASSUME \A b \in AllBuilds : \A c \in Codecs : \A s \in Spellings(c) :
         Named(b, s) = IF Offers(b, c) THEN c ELSE None
ASSUME \A b \in AllBuilds : \A s \in Wrong : Named(b, s) = None
ASSUME \A b \in AllBuilds : \A c \in Codecs : \A s \in UNION {Spellings(d) : d \in Codecs} :
         Allowed("x", [b |-> b, c |-> "show", codec |-> c], [t |-> "ok", name |-> s], "x")
           = (Offers(b, c) /\ s \in Spellings(c))
(* two implementations of a codec do not make two codecs                             *)
ASSUME \A b \in AllBuilds : \A c \in Codecs : Offers(b, c) = \E f \in {"raw"} \cup b :
         c = "raw" \/ f \in Providers(c)
===================================================================================
