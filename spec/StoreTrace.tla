----------------------------- MODULE StoreTrace -----------------------------
(***************************************************************************)
(* A recorded execution of real keyed stores, checked against StoreModel   *)
(* and against what durability promises.                                   *)
(*                                                                         *)
(*   mem[s]      what the open database holds in store s                   *)
(*   flag[s]     its dupsort setting: "u" until first bound, then "T"/"F"  *)
(*   may[s]      the versions of s that storage may hold right now         *)
(*   win[f][s]   the versions s has had since flush f began                *)
(*   its[i]      what iteration i must yield in full                       *)
(*                                                                         *)
(* A flush that returned makes storage hold a version no older than its    *)
(* start; a flush that failed or is under way may have landed any version  *)
(* of its window, each store on its own, never a mixture.                  *)
(***************************************************************************)
EXTENDS StoreModel, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, bad, N, sep, mem, flag, may, win, its
vars == <<l, bad, N, sep, mem, flag, may, win, its>>

E == Trace[l]
Ver(s) == [b |-> mem[s], f |-> flag[s]]
Active == DOMAIN win /= {}

Say(clause, want) ==
  PrintT("@BAD " \o ToJson([line |-> l, clause |-> clause, event |-> E, want |-> want]))

Fail(clause, want) ==
  /\ Say(clause, want)
  /\ bad' = clause
  /\ UNCHANGED <<l, N, sep, mem, flag, may, win, its>>

Go == l' = l + 1 /\ bad' = bad

Init == l = 1 /\ bad = "" /\ N = 0 /\ sep = 46 /\ mem = <<>> /\ flag = <<>>
        /\ may = <<>> /\ win = <<>> /\ its = <<>>

\* a new world: empty storage with N stores (the last one holds the version)
NewWorld ==
  /\ E.e = "world" /\ Go
  /\ N' = E.n /\ sep' = E.sep
  /\ mem' = [s \in 1..E.n |-> {}]
  /\ flag' = [s \in 1..E.n |-> "u"]
  /\ may' = [s \in 1..E.n |-> {[b |-> {}, f |-> "u"]}]
  /\ win' = <<>> /\ its' = <<>>

Note(s, b, f) ==   \* record a new version of s
  LET v == [b |-> b, f |-> f] IN
  /\ win' = [w \in DOMAIN win |-> [win[w] EXCEPT ![s] = @ \cup {v}]]
  /\ may' = IF Active THEN [may EXCEPT ![s] = @ \cup {v}] ELSE may

Call ==
  /\ E.e = "call"
  /\ LET a == Apply(mem[E.s], E.x, sep) IN
     IF a.r /= E.r THEN Fail("result of " \o E.x.op, a.r)
     ELSE /\ Go
          /\ mem' = [mem EXCEPT ![E.s] = a.st]
          /\ Note(E.s, a.st, flag[E.s])
          /\ UNCHANGED <<N, sep, flag, its>>

\* iteration: begun (first item taken) here, exhausted at iterEnd
IterBegin ==
  /\ E.e = "iterBegin" /\ Go
  /\ its' = (E.id :> Apply(mem[E.s], E.x, sep).r) @@ its
  /\ UNCHANGED <<N, sep, mem, flag, may, win>>

IterEnd ==
  /\ E.e = "iterEnd"
  /\ IF its[E.id] /= E.r THEN Fail("iteration disturbed by writes", its[E.id])
     ELSE Go /\ UNCHANGED <<N, sep, mem, flag, may, win, its>>

Bind ==
  /\ E.e = "bind"
  /\ LET f == IF flag[E.s] = "u" THEN E.dup ELSE flag[E.s] IN
     IF f /= E.r THEN Fail("dupsort setting of a store", f)
     ELSE /\ Go /\ flag' = [flag EXCEPT ![E.s] = f]
          /\ Note(E.s, mem[E.s], f)
          /\ UNCHANGED <<N, sep, mem, its>>

FlushBegin ==
  /\ E.e = "flushBegin" /\ Go
  /\ win' = (E.id :> [s \in 1..N |-> {Ver(s)}]) @@ win
  /\ may' = [s \in 1..N |-> may[s] \cup {Ver(s)}]
  /\ UNCHANGED <<N, sep, mem, flag, its>>

FlushEnd ==
  /\ E.e = "flushEnd"
  /\ IF E.ok /\ E.n /= E.synced THEN Fail("flush count", E.synced)
     ELSE /\ Go
          /\ may' = IF E.ok THEN [s \in 1..N |-> win[E.id][s]]
                    ELSE may
          /\ win' = [w \in DOMAIN win \ {E.id} |-> win[w]]
          /\ UNCHANGED <<N, sep, mem, flag, its>>

\* what a fresh open of the stored data shows for store s
Entries(q) == { q[j] : j \in 1..Len(q) }
Matches(v, e) == v.b = Entries(e.b) /\ (e.f = "skip" \/ e.f = v.f)
Look ==
  /\ E.e = "look"
  /\ LET ok == { v \in may[E.s] : Matches(v, E) } IN
     IF ok = {} THEN Fail("stored content of store " \o ToString(E.s), may[E.s])
     ELSE /\ Go
          /\ may' = IF Active THEN may ELSE [may EXCEPT ![E.s] = ok]
          /\ UNCHANGED <<N, sep, mem, flag, win, its>>

\* the process ended and a new one opened the stores listed in E.s
\* (with E.clear it asked for them to be emptied)
Reopen ==
  /\ E.e = "reopen" /\ Go
  /\ LET S == Entries(E.ss) \cup {N}
         pick(s) == IF E.clear /\ s \in S THEN [b |-> {}, f |-> "u"]
                    ELSE CHOOSE v \in may[s] : TRUE
     IN /\ mem' = [s \in 1..N |-> pick(s).b]
        /\ flag' = [s \in 1..N |-> pick(s).f]
        /\ may' = [s \in 1..N |-> {pick(s)}]
  /\ win' = <<>> /\ its' = <<>> /\ UNCHANGED <<N, sep>>

Refuse ==   \* a call that must be refused, with whether it was
  /\ E.e = "refuse"
  /\ IF ~E.r THEN Fail("accepted: " \o E.what, TRUE)
     ELSE Go /\ UNCHANGED <<N, sep, mem, flag, may, win, its>>

Next ==
  /\ l <= Len(Trace) /\ bad = ""
  /\ NewWorld \/ Call \/ IterBegin \/ IterEnd \/ Bind \/ FlushBegin \/ FlushEnd
     \/ Look \/ Reopen \/ Refuse

Spec == Init /\ [][Next]_vars

Done == PrintT("@DONE " \o ToJson([n |-> TLCGet("stats").diameter - 1, len |-> Len(Trace)]))
=============================================================================
