----------------------------- MODULE TholdTrace -----------------------------
(***************************************************************************)
(* What the real Tholder made of threshold expressions, judged by          *)
(* Thold.tla.  TRACE names a file of JSON lines: e, the expression, took,  *)
(* whether it was taken, and then its size, again, the expressions it is   *)
(* put down as and read from again, and sat: places signed (in any order,  *)
(* some twice) with whether they satisfy it.                               *)
(***************************************************************************)
EXTENDS Thold, TLCExt, Json, IOUtils

T == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
Init == i = 1

Bad(l) ==
  IF l.took # Valid(l.e) THEN {IF l.took THEN "taken" ELSE "refused"}
  ELSE IF ~l.took THEN {}
  ELSE (IF l.size = Size(l.e) THEN {} ELSE {"size"})
       \cup (IF \A j \in 1..Len(l.again) : l.again[j] = Norm(l.e) THEN {} ELSE {"again"})
       \cup (IF \A j \in 1..Len(l.sat) : (l.sat[j].yes => Satisfied(l.e, Range(l.sat[j].at))) THEN {} ELSE {"enough"})
       \cup (IF \A j \in 1..Len(l.sat) : (Satisfied(l.e, Range(l.sat[j].at)) => l.sat[j].yes) THEN {} ELSE {"short"})

Report(bad) == IF bad = {} THEN TRUE
               ELSE PrintT("@BAD " \o ToJson([line |-> i, bad |-> { [why |-> y, x |-> 0] : y \in bad }]))
Next == i <= Len(T) /\ Report(Bad(T[i])) /\ i' = i + 1
Spec == Init /\ [][Next]_i
Done == PrintT("@DONE " \o ToJson([n |-> TLCGet("stats").diameter - 1]))
=============================================================================
