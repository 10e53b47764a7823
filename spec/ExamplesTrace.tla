---------------------------- MODULE ExamplesTrace ----------------------------
(* Recorded runs of the real guard and tagger on documents and values of   *)
(* any size, judged by Examples.                                           *)
EXTENDS Examples, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad
E == Trace[l]
SetOf(q) == { q[j] : j \in 1..Len(q) }
Fail(clause, want) ==
  PrintT("@BAD " \o ToJson([line |-> l, clause |-> clause, event |-> E, want |-> want]))
  /\ bad' = clause /\ l' = l
Ok == l' = l + 1 /\ bad' = bad
Diffs ==
  /\ E.e = "diff"
  /\ LET w == Diff("", E.x, E.y) IN
     IF (w = {}) /= E.ok THEN Fail("values judged equal or different", w)
     ELSE IF w /= SetOf(E.paths) THEN Fail("places reported to differ", w)
     ELSE Ok
Runs ==
  /\ E.e = "run"
  /\ LET m == SetOf(E.m)  B == Blocks(E.d) IN
     IF Guard(m, E.d) /= E.g THEN Fail("exit status", Guard(m, E.d))
     ELSE IF Missing(m, B) /= SetOf(E.mi) THEN Fail("reported missing", Missing(m, B))
     ELSE IF Extra(m, B) /= SetOf(E.ex) THEN Fail("reported extra", Extra(m, B))
     ELSE IF Drifted(m, B) /= SetOf(E.dr) THEN Fail("reported drifted", Drifted(m, B))
     ELSE IF Errors(E.d) /= E.er THEN Fail("errors reported", Errors(E.d))
     ELSE IF Shape(TagDoc(m, E.d)) /= E.tg THEN Fail("tagged document", Shape(TagDoc(m, E.d)))
     ELSE Ok
Init == l = 1 /\ bad = ""
Next == l <= Len(Trace) /\ bad = "" /\ (Diffs \/ Runs)
Spec == Init /\ [][Next]_<<l, bad>>
Done == PrintT("@DONE " \o ToJson([n |-> TLCGet("stats").diameter - 1, len |-> Len(Trace)]))
=============================================================================
