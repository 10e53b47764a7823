----------------------------- MODULE SubTrace -----------------------------
(***************************************************************************)
(* Recorded calls on real typed sub-databases sharing one environment,     *)
(* checked against Sub: every call answers as specified for its own        *)
(* sub-database and leaves the others alone.                               *)
(***************************************************************************)
EXTENDS Sub, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, bad, subs, mem
vars == <<l, bad, subs, mem>>

E == Trace[l]

Fail(clause, want) ==
  /\ PrintT("@BAD " \o ToJson([line |-> l, clause |-> clause, event |-> E, want |-> want]))
  /\ bad' = clause /\ UNCHANGED <<l, subs, mem>>
Go == l' = l + 1 /\ bad' = bad

Init == l = 1 /\ bad = "" /\ subs = <<>> /\ mem = <<>>

NewWorld ==
  /\ E.e = "world" /\ Go
  /\ subs' = E.subs
  /\ mem' = [s \in 1..Len(E.subs) |-> {}]

Do ==
  /\ E.e = "call"
  /\ LET u == subs[E.s]
         a == SubApply(u.fam, u.ord, mem[E.s], E.x, u.sep) IN
     IF a.r /= E.r THEN Fail("result of " \o E.x.op \o " of " \o u.cls, a.r)
     ELSE Go /\ mem' = [mem EXCEPT ![E.s] = a.st] /\ UNCHANGED subs

Refuse ==
  /\ E.e = "refuse"
  /\ IF ~E.r THEN Fail("accepted: " \o E.what, TRUE)
     ELSE Go /\ UNCHANGED <<subs, mem>>

Next == l <= Len(Trace) /\ bad = "" /\ (NewWorld \/ Do \/ Refuse)
Spec == Init /\ [][Next]_vars
Done == PrintT("@DONE " \o ToJson([n |-> TLCGet("stats").diameter - 1, len |-> Len(Trace)]))
=============================================================================
