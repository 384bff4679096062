---------------------------------- MODULE Open ----------------------------------
(* Opening and creating hierarchies on a directory, by the leaves (see Metadata) *)
(* of their entry points.                                                         *)
EXTENDS Metadata

(* --- entry points -------------------------------------------------------------- *)
CoreURI == "https://purl.org/zarr/spec/protocol/core/"
RECURSIVE AfterSlash(_)
AfterSlash(s) == IF \E i \in 1..Len(s) : SubSeq(s, i, i) = "/"
                 THEN AfterSlash(SubSeq(s, (CHOOSE i \in 1..Len(s) : SubSeq(s, i, i) = "/") + 1, Len(s)))
                 ELSE s
Version(L) == AfterSlash(Text(L, "/zarr_format"))
Ours == {"3", "3.0", "3.0.0"}
Plain(v) == /\ Len(v) > 0 /\ SubSeq(v, 1, 1) \in Digits /\ SubSeq(v, Len(v), Len(v)) \in Digits
            /\ \A i \in 1..Len(v) : SubSeq(v, i, i) \in Digits \cup {"."}
Major(v) == IF \E i \in 1..Len(v) : SubSeq(v, i, i) = "."
            THEN SubSeq(v, 1, (CHOOSE i \in 1..Len(v) : SubSeq(v, i, i) = "." /\
                     \A j \in 1..(i - 1) : SubSeq(v, j, j) # ".") - 1) ELSE v
(* later versions of this generation: the library implements its first            *)
Later(v) == Plain(v) /\ Major(v) = "3" /\ \E i \in 2..Len(v) : SubSeq(v, i, i) \in Digits \ {"0"}
(* versions of other generations, and words that are no versions                    *)
Letters == {"a", "b", "c", "d", "e", "f", "n", "t", "z", "_"}
Incompatible(v) == \/ v = ""
                   \/ Plain(v) /\ Major(v) # "3"
                   \/ Later(v)
                   \/ Len(v) > 0 /\ SubSeq(v, 1, 1) \in Letters
EpBad(L) ==
  \/ Kind(L, "") # "obj"
  \/ Kind(L, "/zarr_format") # "str" \/ Kind(L, "/metadata_encoding") # "str"
  \/ Kind(L, "/metadata_key_suffix") # "str"
  \/ BadExts(L)
  \/ Incompatible(Version(L))
EpPositional(L) == Kind(L, "") = "arr" \/
                   \E x \in L : x[2] = "arr" /\ \E i \in 1..9 : x[1] = At("/extensions", i)
EpMustReject(L) == ~EpPositional(L) /\ EpBad(L)
NExts(L) == Nat2(IF Kind(L, "/extensions") = "arr" THEN Text(L, "/extensions") ELSE "0")
EpUnclear(L) ==
  \/ EpPositional(L)
  \/ Version(L) \notin Ours
  \/ \A v \in Ours : Text(L, "/zarr_format") # CoreURI \o v
  \/ \A v \in Ours : Text(L, "/metadata_encoding") # CoreURI \o v
  \/ Kind(L, "/extensions") = "none"
  \/ \E i \in 1..NExts(L) :
       Kind(L, At("/extensions", i) \o "/configuration") \notin {"none", "json"}
EpMustAccept(L) == ~EpMustReject(L) /\ ~EpUnclear(L)
(* what a program sees of it                                                          *)
EpView(L) ==
  [format |-> Text(L, "/zarr_format"), encoding |-> Text(L, "/metadata_encoding"),
   suffix |-> Text(L, "/metadata_key_suffix"),
   exts |-> [i \in 1..NExts(L) |->
             LET p == At("/extensions", i) IN
             <<Text(L, p \o "/extension"), IF Has(L, p \o "/configuration")
                THEN Text(L, p \o "/configuration") ELSE "none">>]]
Shows(said, L) == said \in {Version(L), "^" \o Version(L)}

(* --- directories ----------------------------------------------------------------- *)
(* disk: [dir, entry, rest]; entry is [st |-> "none" | "empty" | "doc", json, leaves,  *)
(* raw] and rest stands for everything else there.                                      *)
NoEntry == [st |-> "none", json |-> FALSE, leaves |-> {}, raw |-> ""]
Loads(e) == e.st = "doc" /\ e.json
MustOpen(d) == d.entry.st = "doc" /\ d.entry.json /\ EpMustAccept(d.entry.leaves)
MustFail(d) == d.entry.st # "doc" \/ ~d.entry.json \/ EpMustReject(d.entry.leaves)
IsHandle(x, L) == EpUnclear(L) \/ (x.view = EpView(L) /\ Shows(x.version, L))
(* answers x: [t |-> "ok" | "err", version, view]                                       *)
OpenOK(d, x, d2) ==
  /\ d2 = d
  /\ x.t \in {"ok", "err"}
  /\ MustOpen(d) => x.t = "ok"
  /\ MustFail(d) => x.t = "err"
  /\ x.t = "ok" => IsHandle(x, d.entry.leaves)
CreateOK(d, x, d2) ==
  IF d.entry.st = "doc" THEN OpenOK(d, x, d2)
  ELSE /\ x.t = "ok"
       /\ d2.dir /\ d2.rest = d.rest
       /\ d2.entry.st = "doc" /\ d2.entry.json /\ EpMustAccept(d2.entry.leaves)
       /\ IsHandle(x, d2.entry.leaves)
       /\ x.view.suffix = ".json" /\ x.view.exts = <<>>
(* a handle keeps what it found; it reports that on being asked                           *)
VersionOK(handle, said) == said = handle.version
=================================================================================
