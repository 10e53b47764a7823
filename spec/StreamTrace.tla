---------------------------- MODULE StreamTrace ----------------------------
(***************************************************************************)
(* What the real Parser handed on of streams, judged by Stream.tla.  TRACE *)
(* names a file of JSON lines: us, the units of a stream, got, the calls   *)
(* made, left, the bytes not taken, cut, into how many pieces it was cut   *)
(* (1: at once), and local, whether what was handed on is called local.    *)
(***************************************************************************)
EXTENDS Stream, TLCExt, Json, IOUtils

T == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
Init == i = 1

Fn(a) == [f \in DOMAIN a |-> a[f]]
Bare(c) == [to |-> c.to, f |-> c.f, m |-> c.m, a |-> c.a, n |-> c.n, x |-> c.x]
Head3(c) == <<c.m, c.to, c.f>>
RECURSIVE Sub(_, _)
Sub(xs, ys) == IF xs = <<>> THEN TRUE ELSE IF ys = <<>> THEN FALSE
               ELSE IF Head(xs) = Head(ys) THEN Sub(Tail(xs), Tail(ys)) ELSE Sub(xs, Tail(ys))
Bad(l) ==
  LET got == [j \in 1..Len(l.got) |-> Bare(l.got[j])]
      us == l.us
      must == Musts(us, None0)
      hg == [j \in 1..Len(got) |-> Head3(got[j])]
      hm == [j \in 1..Len(must) |-> Head3(must[j])]
  IN (IF Right(got, us) THEN {}
      ELSE IF ~Sub(hm, hg) THEN {"lost"}
      ELSE IF ~Sub(must, got) THEN {"attached"}
      ELSE {"more"})
     \cup (IF l.left = 0 \/ Open(us) THEN {} ELSE {"left"})
     \cup (IF \A j \in 1..Len(l.got) : l.got[j].local = l.local THEN {} ELSE {"local"})

Report(bad) == IF bad = {} THEN TRUE
               ELSE PrintT("@BAD " \o ToJson([line |-> i, bad |-> { [why |-> y, x |-> 0] : y \in bad }]))
Next == i <= Len(T) /\ Report(Bad(T[i])) /\ i' = i + 1
Spec == Init /\ [][Next]_i
Done == PrintT("@DONE " \o ToJson([n |-> TLCGet("stats").diameter - 1]))
=============================================================================
