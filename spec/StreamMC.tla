------------------------------ MODULE StreamMC ------------------------------
(***************************************************************************)
(* A parser of short streams that arrive in pieces, in every way they can  *)
(* be cut: it hands on what Stream.tla asks for.  Histories (the units,    *)
(* and where the stream was cut) are written out to be done with the real  *)
(* parser.                                                                 *)
(*                                                                         *)
(* A stream is of parts <<unit, part>>: a unit by itself set off as group  *)
(* is body b, counter c, content x; as body it is c, x; a group of units   *)
(* is its counter c and the content x of each, under one number.           *)
(***************************************************************************)
EXTENDS Stream, Json

CONSTANTS Len1, EMIT
VARIABLES us, parts, at, buf, got, cuts, flushed
vars == <<us, parts, at, buf, got, cuts, flushed>>

Kinds == [enc : {"group", "body"}, fate : {"ok", "proc", "att", "junk"}, g : {0}]
         \cup [enc : {"body"}, fate : {"ok", "proc", "att"}, g : {1}]
U(m, k) == [m |-> m, ilk |-> "ixn", v |-> 1, enc |-> k.enc, route |-> "", a |-> [sigers |-> <<1>>, cigars |-> <<2>>], n |-> <<>>,
            fate |-> k.fate, g |-> k.g]
Seqs == UNION { [1..n -> Kinds] : n \in 1..Len1 }

\* the parts of units; those of a group follow each other
Of(u, i, first) == CASE u.fate = "junk" -> << <<i, "j">> >>
                     [] u.g = 1 -> (IF first THEN << <<i, "g">> >> ELSE <<>>) \o << <<i, "x">> >>
                     [] u.enc = "group" -> << <<i, "b">>, <<i, "c">>, <<i, "x">> >>
                     [] OTHER -> << <<i, "c">>, <<i, "x">> >>
First(s, i) == i = 1 \/ s[i - 1].g = 0
RECURSIVE Parts(_, _)
Parts(s, i) == IF i > Len(s) THEN <<>> ELSE Of(s[i], i, First(s, i)) \o Parts(s, i + 1)

Init == /\ us \in { [j \in 1..Len(s) |-> U(j, s[j])] : s \in Seqs }
        /\ parts = Parts(us, 1) /\ at = 0 /\ buf = <<>> /\ got = <<>> /\ cuts = <<>> /\ flushed = FALSE

\* the group beginning at unit i
GroupEnd(i) == CHOOSE j \in i..Len(us) : (\A k \in i..j : us[k].g = 1) /\ (j = Len(us) \/ us[j + 1].g = 0)
RECURSIVE Inner(_, _)
Inner(i, j) == IF i > j \/ us[i].fate = "att" THEN <<>> ELSE Out(us[i]) \o Inner(i + 1, j)
Need(i, p) == CASE p = "j" -> 1 [] p = "g" -> 2 + GroupEnd(i) - i [] p = "b" -> 3 [] p = "c" -> 2 [] OTHER -> 0

Ready == buf # <<>> /\ (Need(buf[1][1], buf[1][2]) = 0 \/ Len(buf) >= Need(buf[1][1], buf[1][2]))
Take ==
  /\ Ready
  /\ LET i == buf[1][1]
         p == buf[1][2]
         k == Need(i, p)
     IN IF p = "j" \/ k = 0                       \* no start of a message: the rest of what is there is lost
        THEN buf' = <<>> /\ flushed' = TRUE /\ UNCHANGED got
        ELSE /\ buf' = SubSeq(buf, k + 1, Len(buf))
             /\ got' = got \o (IF p = "g" THEN Inner(i, GroupEnd(i)) ELSE Out(us[i]))
             /\ UNCHANGED flushed
  /\ UNCHANGED <<us, parts, at, cuts>>
Arrive ==
  /\ ~Ready /\ at < Len(parts)
  /\ \E k \in 1..Len(parts) - at : at' = at + k /\ buf' = buf \o SubSeq(parts, at + 1, at + k) /\ cuts' = Append(cuts, k)
  /\ UNCHANGED <<us, parts, got, flushed>>
Over == ~Ready /\ at = Len(parts)
Next == Take \/ Arrive
Spec == Init /\ [][Next]_vars

Kind(u) == [enc |-> u.enc, fate |-> u.fate, g |-> u.g]
Emit == EMIT /\ Ready /\ ~Ready' /\ at = Len(parts) => PrintT("@E " \o ToJson([us |-> [j \in 1..Len(us) |-> Kind(us[j])], cuts |-> cuts]))
---------------------------------------------------------------------------
\* what it hands on is right, whatever the cuts
Rightly == Over => Right(got, us)
\* without open damage nothing is left, nothing flushed and it is the same whatever the cuts
Alike == Over /\ ~Open(us) => buf = <<>> /\ ~flushed /\ got = Musts(us, None0)
\* and what comes before open damage is always handed on
Before == Over => LET must == Musts(us, None0) IN Len(got) >= Len(must) /\ SubSeq(got, 1, Len(must)) = must
=============================================================================
