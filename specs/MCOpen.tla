--------------------------------- MODULE MCOpen ---------------------------------
(* Open on small sets of entry points: what is accepted is decided by each        *)
(* member alone, creation converges, and nothing is changed that exists.          *)
EXTENDS Open
CONSTANTS MaxSteps
VARIABLES disk, hs, n
vars == <<disk, hs, n>>
Formats == {"3.0", "3", "4.0", "2", "core", "3.1"}
Strs == {"str", "bool"}
Exts == {"none", "empty", "may", "must", "bad"}
ExtL(x) == CASE x = "none" -> {}
  [] x = "empty" -> {<<"/extensions", "arr", "0">>}
  [] x \in {"may", "must"} -> {<<"/extensions", "arr", "1">>, <<"/extensions/0", "obj", "2">>,
        <<"/extensions/0/extension", "str", "e">>,
        <<"/extensions/0/must_understand", "bool", IF x = "must" THEN "true" ELSE "false">>}
  [] OTHER -> {<<"/extensions", "arr", "1">>, <<"/extensions/0", "str", "e">>}
DocL(f, k, s, x) == {<<"", "obj", "4">>, <<"/zarr_format", "str", CoreURI \o f>>,
  <<"/metadata_encoding", k, IF k = "str" THEN CoreURI \o "3.0" ELSE "true">>,
  <<"/metadata_key_suffix", "str", s>>} \cup ExtL(x)
Docs == {DocL(f, k, s, x) : f \in Formats, k \in Strs, s \in {".json", ""}, x \in Exts}
Entry(L) == [st |-> "doc", json |-> TRUE, leaves |-> L, raw |-> "?"]
Entries == {NoEntry, [NoEntry EXCEPT !.st = "empty"], [NoEntry EXCEPT !.st = "doc"]}
           \cup {Entry(L) : L \in Docs}
Created == DocL("3.0", "str", ".json", "empty")
Handle(L) == [t |-> "ok", version |-> "^" \o Version(L), view |-> EpView(L)]
Err == [t |-> "err", version |-> "", view |-> <<>>]
None == [t |-> "none"]
Init == disk \in {[dir |-> FALSE, entry |-> NoEntry, rest |-> "r"]} /\ hs = <<None, None>> /\ n = 0
(* other software *)
Place == /\ n = 0
         /\ \E e \in Entries, d \in BOOLEAN : (e.st # "none" => d) /\
              disk' = [dir |-> d, entry |-> e, rest |-> "r"] /\ UNCHANGED hs
OpenH == \E i \in 1..2, x \in {Err} \cup {Handle(L) : L \in {l \in {disk.entry.leaves} : l # {}}} :
  /\ OpenOK(disk, x, disk) /\ UNCHANGED disk
  /\ hs' = IF x.t = "ok" THEN [hs EXCEPT ![i] = x] ELSE hs
CreateH == \E i \in 1..2, x \in {Err} \cup {Handle(L) : L \in {Created} \cup {l \in {disk.entry.leaves} : l # {}}} :
  LET d2 == IF disk.entry.st = "doc" THEN disk
            ELSE [disk EXCEPT !.dir = TRUE, !.entry = Entry(Created)]
  IN /\ CreateOK(disk, x, d2) /\ disk' = d2
     /\ hs' = IF x.t = "ok" THEN [hs EXCEPT ![i] = x] ELSE hs
Next == n < MaxSteps /\ n' = n + 1 /\ (Place \/ OpenH \/ CreateH)
Spec == Init /\ [][Next]_vars
Decided == \A e \in {disk.entry} : ~(MustOpen(disk) /\ MustFail(disk))
(* all handles agree with the directory and each other                                  *)
Agree == \A i \in 1..2 : hs[i].t = "ok" => /\ disk.entry.st = "doc"
                                           /\ ~MustFail(disk)
                                           /\ EpUnclear(disk.entry.leaves) \/ hs[i] = Handle(disk.entry.leaves)
Stable == [][(disk.entry.st = "doc" /\ n > 0) => disk' = disk]_vars
RestKept == disk.rest = "r"
(* independent account of the documents of this model                                    *)
Expected == \A f \in Formats, k \in Strs, s \in {".json", ""}, x \in Exts :
  LET L == DocL(f, k, s, x)
      bad == f \in {"4.0", "2", "core", "3.1"} \/ k # "str" \/ x \in {"must", "bad"}
  IN /\ EpMustReject(L) = bad
     /\ EpMustAccept(L) = (~bad /\ f \in {"3.0", "3"} /\ x # "none")
ASSUME Expected
=================================================================================
