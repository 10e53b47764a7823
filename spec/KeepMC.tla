------------------------------- MODULE KeepMC -------------------------------
(***************************************************************************)
(* All short histories of a small keystore, from Keep.tla: what must hold  *)
(* of it is checked, and the histories are written out (EMIT) to be done   *)
(* with the real code.  Keys are numbers; key(s) of a lot are fresh, but   *)
(* those of the stem z are made again when it is begun again.              *)
(***************************************************************************)
EXTENDS Keep, Json

CONSTANTS Depth, MaxId, Full, EMIT
VARIABLES M, n, hist, last
vars == <<M, n, hist, last>>

Init == /\ \E en \in {0, 1} :
             M = [en |-> en, open |-> TRUE, root |-> 1, pidx |-> 0, taken |-> {}, first |-> {}, id |-> <<>>, held |-> {}]
        /\ n = 0 /\ last = 0
        /\ hist = <<[op |-> "world", en |-> M.en]>>

Hs == 1..MaxId
New == Cardinality(M.taken) + 1
Fresh(m, k) == [j \in 1..k |-> m + j]

Inc(a, st, ic, nc) == [op |-> "incept", h |-> New, xf |-> TRUE, t |-> "low", a |-> a, s |-> IF a = "randy" THEN 0 ELSE IF st = "z" THEN 2 ELSE 0,
                       st |-> st, ic |-> ic, nc |-> nc]
Menu ==
  (IF New > MaxId THEN {} ELSE
     {Inc("salty", "", 1, 1), Inc("salty", "z", 2, 1), Inc("randy", "", 1, 2)}
     \cup (IF Full THEN {Inc("salty", "", 2, 0), Inc("salty", "z", 2, 2)} ELSE {})
     \cup { [op |-> "ingest", h |-> New, xf |-> TRUE, t |-> "low", a |-> a, s |-> 0, st |-> "", ic |-> 0, nc |-> 1,
             lots |-> <<Fresh(n, 2), Fresh(n + 2, 1)>>, ir |-> r] : r \in {0, 1}, a \in {"salty"} }
     \cup { [op |-> "move", h |-> h, to |-> New] : h \in DOMAIN M.id })
  \cup { [op |-> "rotate", h |-> h, xf |-> TRUE, nc |-> c, er |-> e] : h \in DOMAIN M.id, c \in (IF Full THEN {0, 1, 2} ELSE {0, 1}), e \in BOOLEAN }
  \cup { [op |-> "replay", h |-> h, adv |-> TRUE, er |-> e] : h \in DOMAIN M.id, e \in BOOLEAN }
  \cup { [op |-> "replay", h |-> h, adv |-> FALSE, er |-> FALSE] : h \in DOMAIN M.id }
  \cup (IF last = 0 THEN {} ELSE { [op |-> "undo", h |-> last] })
  \cup { [op |-> "setae", ae |-> e, sd |-> e] : e \in {0, 1, 2} \ {M.en} }
  \cup { [op |-> "open", sd |-> e, ae |-> 0] : e \in {0, 1} }

\* Hab goes on with the lots that are there before it makes new ones
Usual(op) == /\ op.op \in {"rotate"} => Last(M.id[op.h])
             /\ ~M.open => op.op = "open"

Dup(op) == op.op = "incept" /\ op.st = "z" /\ \E k \in M.first : k = 1000

Do(op) ==
  LET ok == Ok(M, op, Dup(op))
      vk == CASE op.op = "incept" -> IF op.st = "z" THEN <<1000>> \o Fresh(n, op.ic - 1) ELSE Fresh(n, op.ic)
              [] op.op = "ingest" -> Fresh(n, 3)
              [] OTHER -> Reveals(M, op, <<>>)
      m == CASE op.op = "incept" -> n + op.ic [] op.op = "ingest" -> n + 3 [] OTHER -> n
      dk == CASE op.op \in {"incept", "ingest", "rotate"} -> Fresh(m, op.nc)
              [] OTHER -> Commits(M, op, <<>>)
  IN /\ M' = IF ok THEN After(M, op, vk, dk) ELSE IF op.op = "open" THEN [M EXCEPT !.open = FALSE] ELSE M
     /\ n' = IF ok /\ op.op \in {"incept", "ingest", "rotate"} THEN m + op.nc ELSE n
     /\ last' = IF ok /\ op.op \in {"rotate", "replay"} /\ ~op.er /\ (op.op = "replay" => op.adv) THEN op.h ELSE 0
     /\ hist' = Append(hist, op)

Next == Len(hist) <= Depth /\ \E op \in Menu : Usual(op) /\ Do(op)
Spec == Init /\ [][Next]_vars

Emit == EMIT => PrintT("@E " \o ToJson(hist'))

---------------------------------------------------------------------------
\* a keystore whose owner erases only what is past can always sign and always rotate
Able == \A h \in DOMAIN M.id : LET r == M.id[h] IN Held(M, Cur(r)) /\ Held(M, Nxt(r)) /\ Cur(r) # <<>>
\* every lot is other keys
Apart == \A g, h \in DOMAIN M.id : \A a \in 1..Len(M.id[g].lots), b \in 1..Len(M.id[h].lots) :
           (g # h \/ a # b) => Rng(M.id[g].lots[a]) \cap Rng(M.id[h].lots[b]) = {}
Shape == \A h \in DOMAIN M.id : h \in M.taken /\ M.id[h].at + 2 <= Len(M.id[h].lots)
\* what was committed to is what comes next, and what was before stays as it was
Bound == [][\A h \in DOMAIN M.id \cap DOMAIN M'.id :
              LET r == M.id[h] IN LET s == M'.id[h] IN
              /\ s.at = r.at + 1 => Cur(s) = Nxt(r)
              /\ s.at \in {r.at - 1, r.at, r.at + 1}
              /\ SubSeq(s.lots, 1, Len(r.lots)) = r.lots]_vars
\* keys go only by the advance of their own identifier
Kept == [][\A k \in M.held : k \notin M'.held => \E h \in DOMAIN M.id \cap DOMAIN M'.id : M'.id[h].at = M.id[h].at + 1 /\ k \in Rng(Old(M.id[h]))]_vars
View == <<M, last>>
=============================================================================
