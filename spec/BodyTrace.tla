----------------------------- MODULE BodyTrace -----------------------------
(***************************************************************************)
(* What the real Serders took and made, judged by Body.tla.  TRACE names a *)
(* file of JSON lines: op read, a body b, whether it was took, and then if *)
(* what was read is the same as was written, and if what came after it was *)
(* left (rest); op make, the fields given, whether something was made, of  *)
(* what fields, and if it is what it is to be (same).                      *)
(***************************************************************************)
EXTENDS Body, TLCExt, Json, IOUtils

T == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
Init == i = 1

Read(l) == (IF l.took = Acceptable(l.b) THEN {} ELSE IF l.took THEN {"accepted"} ELSE {"refused"})
           \cup (IF l.same THEN {} ELSE {"changed"}) \cup (IF l.rest THEN {} ELSE {"rest"})
Make(l) == LET sp == Spec0(l.b.proto, l.b.v, l.b.ilk)
           IN (IF l.took = Makeable(sp, l.given) THEN {} ELSE IF l.took THEN {"made"} ELSE {"unmade"})
              \cup (IF l.took => l.same /\ l.b.fields = Made(sp, l.given) THEN {} ELSE {"other"})
Bad(l) == IF l.op = "read" THEN Read(l) ELSE Make(l)

Report(bad) == IF bad = {} THEN TRUE
               ELSE PrintT("@BAD " \o ToJson([line |-> i, bad |-> { [why |-> y, x |-> 0] : y \in bad }]))
Next == i <= Len(T) /\ Report(Bad(T[i])) /\ i' = i + 1
Spec == Init /\ [][Next]_i
Done == PrintT("@DONE " \o ToJson([n |-> TLCGet("stats").diameter - 1]))
=============================================================================
