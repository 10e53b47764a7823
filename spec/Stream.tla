------------------------------- MODULE Stream -------------------------------
(***************************************************************************)
(* What a parser hands on of a stream of messages with attachments.        *)
(*                                                                         *)
(* A unit of a stream is a message u:                                      *)
(*   m    the message             ilk, v, route   its kind, major version  *)
(*   a    field -> its attachments in order   n  messages nested in these  *)
(*   enc  how it is set off: bare (a frame of its own), group (attachments *)
(*        in a counted group), body (message and attachments in one)       *)
(*   g    the group of several messages it is in, 0 for none               *)
(*   fate ok; proc (who takes it fails); att (damaged within its counted   *)
(*        group); said (not the message it says it is); junk (no message)  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Has(u, f) == f \in DOMAIN u.a /\ u.a[f] # <<>>
Last1(u, f) == IF Has(u, f) THEN u.a[f][Len(u.a[f])] ELSE 0
Drop(a, f) == [x \in DOMAIN a \ {f} |-> a[x]]

None == [first |-> 0, deli |-> 0, seal |-> 0, src |-> 0]
Call(to, f, u, x) == [to |-> to, f |-> f, m |-> u.m, a |-> u.a, n |-> u.n, x |-> x]

Events == {"icp", "rot", "ixn", "dip", "drt"}
Registry == {"vcp", "vrt", "iss", "rev", "bis", "brv"}
Asks == {"qry", "rpy", "exn", "xip", "pro", "bar"}

\* whom the message goes to, and with what
Calls(u) ==
  CASE u.ilk \in Asks /\ u.v = 2 -> <<Call("kvy", "processMsg", u, None)>>
    [] u.ilk \in Events ->
         LET x == [None EXCEPT !.first = Last1(u, "frcs"), !.deli = Last1(u, "sscs")]
         IN IF ~Has(u, "sigers") THEN <<>>
            ELSE <<Call("kvy", "processEvent", u, x)>>
                 \o (IF Has(u, "cigars") THEN <<Call("kvy", "processAttachedReceiptCouples", u, x)>> ELSE <<>>)
                 \o (IF Has(u, "rsgs") THEN <<Call("kvy", "processAttachedReceiptSigGroups", u, x)>> ELSE <<>>)
    [] u.ilk = "rct" -> IF \E f \in {"cigars", "wigers", "tsgs", "rsgs"} : Has(u, f) THEN <<Call("kvy", "processReceipt", u, None)>> ELSE <<>>
    [] u.ilk = "rpy" -> IF Has(u, "cigars") \/ Has(u, "tsgs") THEN <<Call("rvy", "processReply", u, None)>> ELSE <<>>
    [] u.ilk = "exn" -> IF Has(u, "cigars") \/ Has(u, "tsgs") THEN <<Call("exc", "processEvent", u, None)>> ELSE <<>>
    [] u.ilk = "qry" ->
         LET x == [None EXCEPT !.src = Last1(u, "lsgs")]
             w == [u EXCEPT !.a = Drop(@, "sigers")]
         IN IF ~Has(u, "lsgs") /\ ~Has(u, "cigars") THEN <<>>
            ELSE IF u.route \in {"logs", "ksn", "mbx"} THEN <<Call("kvy", "processQuery", w, x)>>
            ELSE IF u.route \in {"tels", "tsn"} THEN <<Call("tvy", "processQuery", w, x)>>
            ELSE <<>>
    [] u.ilk \in Registry -> <<Call("tvy", "processEvent", u, [None EXCEPT !.seal = Last1(u, "sscs")])>>
    [] u.ilk = "acdc" -> <<Call("vry", "processACDC", u, [None EXCEPT !.seal = Last1(u, "ssts")])>>
    [] OTHER -> <<>>

\* what of a unit is handed on
Out(u) == CASE u.fate = "ok" -> Calls(u)
            [] u.fate = "proc" -> SubSeq(Calls(u), 1, IF Calls(u) = <<>> THEN 0 ELSE 1)
            [] OTHER -> <<>>

\* Damage within a counted group costs what is in that group: of a unit by itself, that unit; of a unit of
\* group g, this and what follows it in g.  Other damage may cost all that follows, of which yet nothing is
\* handed on but messages that are there.  lost: nothing ("none"), what follows in a group ("group", g), or
\* what follows ("all").
None0 == [of |-> "none", g |-> 0]
Gone(lost, u) == lost.of = "all" \/ (lost.of = "group" /\ u.g = lost.g)
After(lost, u) ==
  IF lost.of = "all" \/ u.fate \in {"said", "junk"} THEN [of |-> "all", g |-> 0]
  ELSE IF u.fate = "att" /\ u.g > 0 THEN [of |-> "group", g |-> u.g]
  ELSE IF lost.of = "group" /\ u.g = lost.g THEN lost ELSE None0
RECURSIVE Own(_, _, _)
Own(got, u, n) == IF n < Len(got) /\ got[n + 1].m \in {u.m, 0} THEN Own(got, u, n + 1) ELSE n
RECURSIVE Fits(_, _, _)
Fits(got, us, lost) ==               \* got is what may be handed on of us
  IF lost.of = "all" THEN \A j \in 1..Len(got) : got[j].m > 0 \/ got[j].f = "processReceipt"      \* what a receipt is of is no proof of it
  ELSE IF us = <<>> THEN got = <<>>
  ELSE LET u == Head(us)
           o == Out(u)
           l == After(lost, u)
           n == Own(got, u, 0)
           Rest(k) == Fits(SubSeq(got, k + 1, Len(got)), Tail(us), l)
       IN \/ u.fate \in {"ok", "proc"} /\ Len(o) <= Len(got) /\ SubSeq(got, 1, Len(o)) = o /\ Rest(Len(o))
          \/ u.fate \in {"ok", "proc"} /\ Gone(lost, u) /\ o # <<>> /\ Rest(0)
          \/ u.fate = "att" /\ \E k \in 0..n : Rest(k)
          \/ u.fate \in {"said", "junk"} /\ Rest(0)
Right(got, us) == Fits(got, us, None0)

\* what must have been handed on, whatever else
RECURSIVE Musts(_, _)
Musts(us, lost) ==
  IF us = <<>> THEN <<>>
  ELSE LET u == Head(us) IN (IF Gone(lost, u) THEN <<>> ELSE Out(u)) \o Musts(Tail(us), After(lost, u))
Open(us) == \E j \in 1..Len(us) : us[j].fate \in {"said", "junk"}
=============================================================================
