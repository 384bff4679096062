-------------------------------- MODULE FsStore --------------------------------
(***************************************************************************)
(* The store on files: how the library sets, gets and erases the value of   *)
(* one key, system call by system call, in several processes, with others   *)
(* locking the file and processes dying.                                    *)
(*                                                                         *)
(* `conf` watches: it is the set of orders, as the states they lead to, in  *)
(* which the calls so far can have been performed one at a time.  When it   *)
(* is empty there is none.                                                  *)
(*                                                                         *)
(* Variant names a change of the protocol, each of which must be noticed:   *)
(* "none" is the library's.                                                 *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Procs, Calls, Inodes, Variant, Deviate, Crashes, Locks

VARIABLES
  link,      \* the inode under the key, 0 if none
  file,      \* inode -> [v, st]: the value written to it, and how far
  sh, ex,    \* inode -> holders of locks: a set, and one or "nobody"
  pc, fd, arg, buf,      \* of each process
  made,      \* calls made by each process
  crashes, foreign,      \* dead processes; what others have locked: [i, ex] or [i |-> 0]
  conf

vars == <<link, file, sh, ex, pc, fd, arg, buf, made, crashes, foreign, conf>>

None == "absent"
Broken == "broken"
Value(p, n) == ToString(p) \o "." \o ToString(n)
Blank == [v |-> None, st |-> "empty"]
Seen(f) == IF f.st = "full" THEN f.v ELSE Broken

Init ==
  /\ link \in {0, 1}
  /\ file = [i \in Inodes |-> IF i = link THEN [v |-> "first", st |-> "full"] ELSE Blank]
  /\ sh = [i \in Inodes |-> {}] /\ ex = [i \in Inodes |-> "nobody"]
  /\ pc = [p \in Procs |-> "idle"] /\ fd = [p \in Procs |-> 0] /\ arg = [p \in Procs |-> None]
  /\ buf = [p \in Procs |-> Blank] /\ made = [p \in Procs |-> 0]
  /\ crashes = 0 /\ foreign = [i |-> 0, ex |-> FALSE]
  /\ conf = {[val |-> IF link = 0 THEN None ELSE "first", op |-> [p \in Procs |-> "idle"],
              res |-> [p \in Procs |-> "idle"]]}

-----------------------------------------------------------------------------
(* The watcher *)

(* p's call takes effect in c *)
Lin(c, p) ==
  CASE c.op[p] = "get" -> {[c EXCEPT !.res[p] = c.val]}
         \cup (IF Deviate /\ c.val = None /\ \E q \in Procs : c.op[q] = "set" /\ c.res[q] = "todo"
               THEN {[c EXCEPT !.res[p] = Broken]} ELSE {})
    [] c.op[p] = "set" -> {[c EXCEPT !.res[p] = "ok", !.val = arg[p]]}
    [] c.op[p] = "erase" -> {[c EXCEPT !.res[p] = "ok", !.val = None]}
RECURSIVE Close(_)
Close(S) == LET T == S \cup UNION {UNION {Lin(c, p) : p \in {p \in Procs : c.res[p] = "todo"}} : c \in S}
            IN IF T = S THEN S ELSE Close(T)

Called(p, what) == conf' = {[c EXCEPT !.op[p] = what, !.res[p] = "todo"] : c \in conf}
Returned(p, r) == conf' = {[c EXCEPT !.op[p] = "idle", !.res[p] = "idle"] : c \in {c \in Close(conf) : c.res[p] = r}}
(* a call may have taken effect before its process died, or not, or, when it   *)
(* sets a value, have left it broken                                          *)
Died(p) == conf' = {[c EXCEPT !.op[p] = "idle", !.res[p] = "idle"] :
                    c \in Close(conf) \cup
                          {[c EXCEPT !.val = Broken] : c \in {c \in Close(conf) : c.op[p] = "set" /\ c.res[p] = "todo"}}}

-----------------------------------------------------------------------------
(* Locks *)

Shared(p, i) == /\ ex[i] \in {"nobody", p} /\ sh' = [sh EXCEPT ![i] = @ \cup {p}] /\ UNCHANGED ex
Exclusive(p, i) == /\ ex[i] \in {"nobody", p} /\ sh[i] \subseteq {p} /\ ex' = [ex EXCEPT ![i] = p] /\ UNCHANGED sh
Release(p) == /\ sh' = [i \in Inodes |-> sh[i] \ {p}]
              /\ ex' = [i \in Inodes |-> IF ex[i] = p THEN "nobody" ELSE ex[i]]

Go(p, l) == pc' = [pc EXCEPT ![p] = l]
Back(p, r) == /\ Go(p, "idle") /\ Release(p) /\ Returned(p, r) /\ fd' = [fd EXCEPT ![p] = 0]
              /\ buf' = [buf EXCEPT ![p] = Blank] /\ arg' = [arg EXCEPT ![p] = None]

Call(p) ==
  /\ pc[p] = "idle" /\ made[p] < Calls[p]
  /\ made' = [made EXCEPT ![p] = @ + 1]
  /\ \E what \in {"set", "get", "erase"} :
       /\ Go(p, CASE what = "set" -> "s_open" [] what = "get" -> "g_stat" [] what = "erase" -> "e_stat")
       /\ arg' = [arg EXCEPT ![p] = IF what = "set" THEN Value(p, made[p]) ELSE None]
       /\ Called(p, what)
  /\ UNCHANGED <<link, file, sh, ex, fd, buf, crashes, foreign>>

Quiet == UNCHANGED <<made, crashes, foreign>>

(* inodes that are nowhere any more may be used again *)
Unused(i) == i # link /\ \A p \in Procs : fd[p] # i
Fresh == CHOOSE i \in Inodes : Unused(i) /\ foreign.i # i

Set(p) ==
  \/ /\ pc[p] = "s_open"
     /\ IF link = 0
        THEN LET i == Fresh IN
             /\ link' = i /\ file' = [file EXCEPT ![i] = Blank] /\ fd' = [fd EXCEPT ![p] = i]
        ELSE /\ fd' = [fd EXCEPT ![p] = link] /\ UNCHANGED link
             /\ file' = IF Variant = "truncate-open" THEN [file EXCEPT ![link] = Blank] ELSE file
     /\ Go(p, IF Variant = "no-writer-lock" THEN "s_trunc" ELSE "s_lock")
     /\ UNCHANGED <<sh, ex, arg, buf, conf>> /\ Quiet
  \/ /\ pc[p] = "s_lock"
     /\ IF Variant = "shared-writer-lock" THEN Shared(p, fd[p]) ELSE Exclusive(p, fd[p])
     /\ Go(p, "s_trunc")
     /\ UNCHANGED <<link, file, fd, arg, buf, conf>> /\ Quiet
  \/ /\ pc[p] = "s_trunc" /\ Go(p, "s_write")
     /\ file' = [file EXCEPT ![fd[p]] = Blank]
     /\ UNCHANGED <<link, sh, ex, fd, arg, buf, conf>> /\ Quiet
  \/ /\ pc[p] = "s_write" /\ Go(p, "s_flush")
     /\ file' = [file EXCEPT ![fd[p]] = [v |-> arg[p], st |-> "part"]]
     /\ IF Variant = "unlock-early" THEN Release(p) ELSE UNCHANGED <<sh, ex>>
     /\ UNCHANGED <<link, fd, arg, buf, conf>> /\ Quiet
  \/ /\ pc[p] = "s_flush" /\ Go(p, "s_close")
     /\ file' = [file EXCEPT ![fd[p]] = [v |-> arg[p], st |-> IF @.v = arg[p] /\ @.st # "empty" THEN "full" ELSE "part"]]
     /\ UNCHANGED <<link, sh, ex, fd, arg, buf, conf>> /\ Quiet
  \/ /\ pc[p] = "s_close" /\ Back(p, "ok") /\ UNCHANGED <<link, file>> /\ Quiet

Get(p) ==
  \/ /\ pc[p] = "g_stat"
     /\ IF link = 0 THEN Back(p, None) ELSE Go(p, "g_open") /\ UNCHANGED <<sh, ex, fd, arg, buf, conf>>
     /\ UNCHANGED <<link, file>> /\ Quiet
  \/ /\ pc[p] = "g_open"
     /\ IF link = 0 THEN Back(p, None)
        ELSE /\ fd' = [fd EXCEPT ![p] = link] /\ Go(p, IF Variant = "no-reader-lock" THEN "g_read" ELSE "g_lock")
             /\ UNCHANGED <<sh, ex, arg, buf, conf>>
     /\ UNCHANGED <<link, file>> /\ Quiet
  \/ /\ pc[p] = "g_lock" /\ Shared(p, fd[p]) /\ Go(p, "g_read")
     /\ UNCHANGED <<link, file, fd, arg, buf, conf>> /\ Quiet
  \/ /\ pc[p] = "g_read" /\ Go(p, "g_rest") /\ buf' = [buf EXCEPT ![p] = file[fd[p]]]
     /\ UNCHANGED <<link, file, sh, ex, fd, arg, conf>> /\ Quiet
  \* what two reads found differs: the result is neither
  \/ /\ pc[p] = "g_rest" /\ Back(p, IF file[fd[p]] = buf[p] THEN Seen(buf[p]) ELSE "mixture")
     /\ UNCHANGED <<link, file>> /\ Quiet

Erase(p) ==
  \/ /\ pc[p] \in {"e_stat", "e_open"}
     /\ IF link = 0 THEN Back(p, "ok")
        ELSE IF pc[p] = "e_stat" THEN Go(p, "e_open") /\ UNCHANGED <<sh, ex, fd, arg, buf, conf>>
        ELSE /\ fd' = [fd EXCEPT ![p] = link] /\ Go(p, IF Variant = "no-eraser-lock" THEN "e_unlink" ELSE "e_lock")
             /\ UNCHANGED <<sh, ex, arg, buf, conf>>
     /\ UNCHANGED <<link, file>> /\ Quiet
  \/ /\ pc[p] = "e_lock" /\ Exclusive(p, fd[p])
     /\ Go(p, IF Variant = "no-check" THEN "e_unlink" ELSE "e_check")
     /\ UNCHANGED <<link, file, fd, arg, buf, conf>> /\ Quiet
  \/ /\ pc[p] = "e_check"
     /\ IF link = fd[p] THEN Go(p, "e_unlink") /\ UNCHANGED <<sh, ex, fd>>
        ELSE Go(p, "e_open") /\ Release(p) /\ fd' = [fd EXCEPT ![p] = 0]
     /\ UNCHANGED <<link, file, arg, buf, conf>> /\ Quiet
  \/ /\ pc[p] = "e_unlink" /\ Back(p, "ok") /\ link' = 0 /\ UNCHANGED file /\ Quiet

(* a process dies; the kernel releases its locks *)
Die(p) ==
  /\ crashes < Crashes /\ pc[p] # "idle"
  /\ crashes' = crashes + 1 /\ Died(p) /\ Release(p) /\ Go(p, "idle")
  /\ fd' = [fd EXCEPT ![p] = 0] /\ buf' = [buf EXCEPT ![p] = Blank] /\ arg' = [arg EXCEPT ![p] = None]
  /\ made' = made /\ UNCHANGED <<link, file, foreign>>

(* others lock what is there, once *)
Foreign ==
  \/ /\ Locks /\ foreign.i = 0 /\ link # 0
     /\ \/ Shared("other", link) /\ foreign' = [i |-> link, ex |-> FALSE]
        \/ Exclusive("other", link) /\ foreign' = [i |-> link, ex |-> TRUE]
     /\ UNCHANGED <<link, file, pc, fd, arg, buf, made, crashes, conf>>
  \/ /\ foreign.i \in Inodes
     /\ Release("other") /\ foreign' = [i |-> 99, ex |-> FALSE]
     /\ UNCHANGED <<link, file, pc, fd, arg, buf, made, crashes, conf>>

Over == /\ \A p \in Procs : pc[p] = "idle" /\ made[p] = Calls[p]
        /\ UNCHANGED vars

Step(p) == Set(p) \/ Get(p) \/ Erase(p)
Next == (\E p \in Procs : Call(p) \/ Step(p) \/ Die(p)) \/ Foreign \/ Over
Spec == Init /\ [][Next]_vars /\ \A p \in Procs : SF_vars(Step(p)) /\ WF_vars(Foreign)

-----------------------------------------------------------------------------
(* C15, C17: what calls return, and what is there when all have returned, is  *)
(* that of one order of them                                                 *)
Linearizable ==
  /\ conf # {}
  /\ (\A p \in Procs : pc[p] = "idle") =>
        \E c \in conf : c.val = IF link = 0 THEN None ELSE Seen(file[link])
(* C16 *)
Honoured ==
  foreign.i \in Inodes => \A p \in Procs : fd[p] = foreign.i =>
     /\ foreign.ex => pc[p] \notin {"g_read", "g_rest"}
     /\ pc[p] \notin {"s_trunc", "s_write", "s_flush", "e_check", "e_unlink"}
Steady == [][foreign.i \in Inodes =>
                /\ file'[foreign.i] = file[foreign.i]
                /\ foreign'.i = foreign.i => (link = foreign.i => link' = foreign.i)]_vars
NoLeak == \A p \in Procs : pc[p] = "idle" => \A i \in Inodes : p \notin sh[i] /\ ex[i] # p
(* every call returns, when others release their locks (no deadlock, no       *)
(* erasure that waits for ever)                                              *)
Return == \A p \in Procs : pc[p] # "idle" ~> pc[p] = "idle"
=============================================================================
