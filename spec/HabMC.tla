------------------------------- MODULE HabMC -------------------------------
(***************************************************************************)
(* All short histories of a small habery, from Hab.tla: what must hold of  *)
(* it is checked, and the histories are written out (EMIT) to be done with *)
(* the real code.  An operation with cut is ended after so many writes.    *)
(***************************************************************************)
EXTENDS Hab, Json

CONSTANTS Depth, MaxId, Full, EMIT
VARIABLES M, n, hist
vars == <<M, n, hist>>

Init == M = [names |-> <<>>, spent |-> {}, id |-> <<>>] /\ n = 0 /\ hist = <<[op |-> "world"]>>

Fresh(m, k) == [j \in 1..k |-> m + j]
New == Cardinality({ j \in 1..Len(hist) : hist[j].op = "make" }) + 1

Mk(nm, ic, nc, kt, nt, toad, wits, tr) ==
  [op |-> "make", h |-> New, nm |-> nm, ic |-> ic, nc |-> nc, kt |-> kt, nt |-> nt, toad |-> toad, wits |-> wits, tr |-> tr, eo |-> FALSE,
   lots |-> <<>>, ir |-> 0, tail |-> <<>>, how |-> IF tr THEN "s0t" ELSE "s0n", cut |-> 0]
Ro(h, nc, kt, nt, toad, cuts, adds) ==
  [op |-> "rotate", h |-> h, nc |-> nc, kt |-> kt, nt |-> nt, toad |-> toad, cuts |-> cuts, adds |-> adds, cut |-> 0]

Cuts(s, at) == { [o EXCEPT !.cut = k] : o \in s, k \in at }
Points == IF Full THEN 1..24 ELSE {2, 5, 8, 11, 14, 18}
Makes == { Mk("/ann", 1, -1, 0, 0, -1, <<>>, TRUE), Mk("/ann", 2, 1, 2, 1, -1, <<1, 2>>, TRUE), Mk("/ann", 2, 1, 3, 1, -1, <<>>, TRUE),
           Mk("org/ann", 1, -1, 0, 0, 3, <<1, 2>>, TRUE), Mk("/bob", 3, 2, 0, 0, 0, <<>>, TRUE), Mk("/bob", 1, -1, 0, 0, -1, <<>>, FALSE) }
Rots(h) == { Ro(h, -1, 0, 0, -1, <<>>, <<>>), Ro(h, 2, 1, 2, -1, <<>>, <<3>>), Ro(h, 1, 0, 1, -1, <<1>>, <<>>), Ro(h, 3, 0, 0, 9, <<>>, <<>>),
             Ro(h, 2, 3, 1, -1, <<>>, <<>>), Ro(h, -1, 0, 0, -1, <<2, 1>>, <<4>>) }
Menu ==
  (IF New > MaxId THEN {} ELSE Makes \cup Cuts(Makes, Points))
  \cup UNION { Rots(h) \cup Cuts(Rots(h), Points) : h \in DOMAIN M.id }
  \cup { [op |-> "interact", h |-> h, cut |-> 0] : h \in DOMAIN M.id }
  \cup { [op |-> "delete", nm |-> nm, h |-> 0, cut |-> 0] : nm \in {"/ann", "/bob"} }
  \cup { [op |-> "reopen", h |-> 0, cut |-> 0] }

Do(op) ==
  LET ok == op.cut = 0 /\ Ok(M, op)
      vk == CASE op.op = "make" -> Fresh(n, Made(op).ic) [] op.op = "rotate" -> M.id[op.h].nxt [] OTHER -> <<>>
      m == IF op.op = "make" THEN n + Made(op).ic ELSE n
      dk == CASE op.op = "make" -> Fresh(m, Made(op).nc) [] op.op = "rotate" -> Fresh(m, Turned(M.id[op.h], op).nc) [] OTHER -> <<>>
  IN /\ M' = IF ok THEN After(M, op, vk, dk) ELSE M
     /\ n' = IF ok THEN m + Len(dk) ELSE n
     /\ hist' = Append(hist, op)

\* at most two are cut short
Few == Cardinality({ j \in 2..Len(hist) : hist[j].cut # 0 })
Next == Len(hist) <= Depth /\ \E op \in Menu : (op.cut # 0 => Few < 2) /\ (Len(hist) = 1 => op.op = "make") /\ Do(op)
Spec == Init /\ [][Next]_vars

\* where it ends matters to the real code alone
Emit == EMIT => PrintT("@E " \o ToJson(hist'))

---------------------------------------------------------------------------
\* names and identifiers go together
Named == /\ { M.names[x] : x \in DOMAIN M.names } = DOMAIN M.id
         /\ \A x, y \in DOMAIN M.names : x # y => M.names[x] # M.names[y]
\* every state can be signed for, and receipted
Sound == \A h \in DOMAIN M.id :
           LET r == M.id[h] IN /\ SithOk(r.kt, Len(r.keys)) /\ SithOk(r.nt, Len(r.nxt)) /\ ToadOk(r.toad, r.wits) /\ NoDup(r.wits)
                               /\ r.n >= 1 /\ (r.tr \/ r.nxt = <<>>)
Apart == \A g, h \in DOMAIN M.id : g # h => Rng(M.id[g].keys \o M.id[g].nxt) \cap Rng(M.id[h].keys \o M.id[h].nxt) = {}
\* a log only grows, and reveals what it committed to
Bound == [][\A h \in DOMAIN M.id \cap DOMAIN M'.id :
              LET r == M.id[h] IN LET s == M'.id[h] IN
              /\ s.n \in {r.n, r.n + 1}
              /\ s.keys # r.keys => s.keys = r.nxt /\ s.n = r.n + 1 /\ s.prev = r.keys
              /\ s.keys = r.keys => s = [r EXCEPT !.n = s.n]]_vars
=============================================================================
